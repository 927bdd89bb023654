"""Corrupts recorded runs, to see whether the specifications notice (tools/selftest.py)."""
import copy, json, os, random
from collections import defaultdict
import tlc

# what was asked for, as opposed to what was seen: corrupting it says little, and it is left alone
INPUTS = {"s", "id", "c", "cfg", "scenario", "w", "world", "P", "in", "conf", "repos", "t", "key"}


def leaves(v, path=()):
    if isinstance(v, dict):
        for k in v:
            if path or k not in INPUTS:
                yield from leaves(v[k], path + (k,))
    elif isinstance(v, list):
        yield path, v
        for k, x in enumerate(v):
            yield from leaves(x, path + (k,))
    else:
        yield path, v


def other(v, pool, rng):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + rng.choice([1, -1] if v > 0 else [1])
    if isinstance(v, str):
        c = [x for x in pool if x != v]
        return rng.choice(c) if c and rng.random() < 0.7 else v + "x"
    if isinstance(v, list):
        if not v:
            return None
        k = rng.randrange(len(v))
        return v[:k] + v[k + 1:]
    return None


def mutants(runs, count, seed):
    rng = random.Random(seed)
    out = []
    for n in range(count * 3):
        if len(out) == count:
            break
        rid, lines, _ = rng.choice(runs)
        if not lines:
            continue
        k = rng.randrange(len(lines))
        lv = [(p, v) for p, v in leaves(lines[k]) if p and p != ("e",)]
        if rng.random() < 0.1 and len(lines) > 2 and k:
            new = lines[:k] + lines[k + 1:]
            out.append((f"m{len(out)}", copy.deepcopy(new), (lines[k].get("e") or lines[k].get("ev"), "(line left out)")))
            continue
        if not lv:
            continue
        # every field alike, however many values it has
        names = sorted({tuple(x for x in p if isinstance(x, str)) for p, _ in lv})
        nm = rng.choice(names)
        p, v = rng.choice([(p, v) for p, v in lv if tuple(x for x in p if isinstance(x, str)) == nm])
        pool = sorted({x for l in lines for q, x in leaves(l) if isinstance(x, str) and tuple(y for y in q if isinstance(y, str)) == nm})
        nv = other(v, pool, rng)
        if nv is None:
            continue
        new = copy.deepcopy(lines)
        d = new[k]
        for x in p[:-1]:
            d = d[x]
        d[p[-1]] = nv
        out.append((f"m{len(out)}", new, (lines[k].get("e") or lines[k].get("ev"), ".".join(nm))))
    return out


def report(suite, what):
    """what: [(field, rejected)]"""
    t = defaultdict(lambda: [0, 0])
    for f, r in what:
        t[f][0] += 1
        t[f][1] += r
    tot = [sum(x[k] for x in t.values()) for k in (0, 1)]
    with open(os.environ["VERIF_SELFTEST_OUT"], "a") as f:
        f.write(f"{suite}: {tot[1]} of {tot[0]} corruptions rejected\n")
        for k in sorted(t, key=lambda k: t[k][1] / t[k][0]):
            f.write(f"   {t[k][1]:4} / {t[k][0]:4}  {k[0]} {k[1]}\n")


def selftest(suite, runs, count, seed, check):
    """check(runs) -> set of rejected ids, or raises when TLC cannot evaluate a run."""
    M = mutants(runs, count, seed)
    bad = set()

    def go(part):
        if not part:
            return
        try:
            bad.update(check(part))
        except Exception:
            if len(part) == 1:
                bad.add(part[0][0])      # not even of the right shape
            else:
                go(part[:len(part) // 2])
                go(part[len(part) // 2:])
    go([(r, l, None) for r, l, _ in M])
    report(suite, [(f, r in bad) for r, _, f in M])
