"""Running suites, collecting evidence, reporting violations."""
import json, os, random, shutil, sys, tempfile, threading, time, traceback
from concurrent.futures import ThreadPoolExecutor, as_completed
from pathlib import Path
from pk import *
import mutate, tlc

OUT = Path(os.environ.get("VERIF_OUT", VERIF))
REPLAYS = OUT / "replays"
THREADS = 12
SELFTEST = int(os.environ.get("VERIF_SELFTEST", "0"))     # so many corrupted runs per suite (tools/selftest.py)


class Ctx:
    """One check: property, tier, seed; collects coverage and violations."""
    def __init__(self, prop, tier, seed, budget):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.deadline = self.t0 + budget
        self.states = self.transitions = 0
        self.traces = 0
        self.samples = []
        self.designs = []
        self.suites = []
        self.violations = []
        self.hangs = 0
        self.sample_seen = set()
        self.lock = threading.Lock()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough=None):
        # VERIF_SCALE: tools/mutants.py only
        return (thorough if thorough is not None else quick * 8) if self.thorough else max(4, round(quick * float(os.environ.get("VERIF_SCALE", "1"))))

    def left(self):
        return self.deadline - time.time()

    # ------------------------------------------------------------ design models
    def design(self, module, cfg, workers=8, timeout=700, expect="ok", name="", heap="6g", args=()):
        """Model-checks a specification completely.  It must hold; or, for a variant that leaves something out,
        the invariant named in `expect` (one of several) must fail, or it must deadlock."""
        o = tlc.run(module, cfg, workers=workers, timeout=timeout, heap=heap, args=args)
        good = "No error has been found" in o.text
        if expect == "deadlock":
            good = "Deadlock reached" in o.text
        elif expect != "ok":
            good = any(f"Invariant {x} is violated" in o.text for x in expect.split())
        if not good:
            raise HarnessError(f"design model {module} ({name}): expected {expect}, got:\n{o.text[-5000:]}")
        with self.lock:
            self.states += o.distinct
            self.transitions += o.generated
            self.designs.append(dict(module=module, config=name or cfg.replace("\n", "; ")[:300], expected=expect, states=o.distinct, transitions=o.generated))

    # ------------------------------------------------------------ running worlds
    def pool(self, items, fn, threads=THREADS, what="runs"):
        """fn(ix, item) -> anything; in parallel; stops early when pkgr keeps hanging or time runs out.
        Returns {ix: result}."""
        res = {}
        def one(ix, it):
            if self.left() < 0 or self.hangs >= 16:
                return None
            return fn(ix, it)
        with ThreadPoolExecutor(threads) as ex:
            fs = {ex.submit(one, ix, it): ix for ix, it in enumerate(items)}
            err = None
            for f in as_completed(fs):
                try:
                    r = f.result()
                    if r is not None:
                        res[fs[f]] = r
                except Exception as e:
                    if err is None:
                        err = (fs[f], e, traceback.format_exc())
                    for g in fs:
                        g.cancel()
            if err:
                raise HarnessError(f"{what} {err[0]}: {err[2]}")
        return res

    def world(self, http=None):
        return World(http=http)

    # ------------------------------------------------------------ checking traces
    def validate(self, suite, module, runs, checks=None, extra="", describe=None, min_lines=1):
        """runs: list of (rid, lines, replay).  Every run's lines carry id rid.  Checks them against the
        trace specification and files violations."""
        d = tempfile.mkdtemp(prefix="pkgrverif-tr-")
        try:
            f = Path(d) / "trace.ndjson"
            with open(f, "w") as fo:
                for rid, lines, _ in runs:
                    for l in lines:
                        l["id"] = rid
                        fo.write(json.dumps(l) + "\n")
            nlines = sum(len(l) for _, l, _ in runs)
            if nlines == 0:
                raise HarnessError(f"suite {suite} recorded nothing")
            rej, o = tlc.check_trace(module, f, checks or [self.prop], extra=extra)
            if SELFTEST and not rej:
                def again(part):
                    with open(f, "w") as fo:
                        for rid, lines, _ in part:
                            for l in lines:
                                fo.write(json.dumps(dict(l, id=rid)) + "\n")
                    return {x[0] for x in tlc.check_trace(module, f, checks or [self.prop], extra=extra)[0]}
                mutate.selftest(f"{self.prop} {suite}", runs, SELFTEST, self.seed, again)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        self.states += o.distinct
        self.transitions += o.generated
        self.traces += len(runs)
        self.suites.append(dict(suite=suite, spec=module, runs=len(runs), steps=nlines, rejected=len(rej)))
        by = {rid: (lines, rp) for rid, lines, rp in runs}
        for rid, line, what in rej:
            self.violate(suite, rid, what, by[rid][1], by[rid][0])
        if runs and suite not in self.sample_seen:
            self.sample_seen.add(suite)
            rid, lines, _ = runs[len(runs) // 2]
            self.samples.append(dict(suite=suite, run=rid, trace=[shorten(l) for l in lines[:6]] + ([f"... {len(lines) - 6} more"] if len(lines) > 6 else [])))
        return rej

    def search(self, suite, module, runs, checks=None, extra=""):
        """Like validate, for specifications with hidden steps: a run is accepted when TLC finds an
        explanation of all its steps."""
        if not runs:
            return
        d = tempfile.mkdtemp(prefix="pkgrverif-tr-")
        try:
            f = Path(d) / "trace.ndjson"
            with open(f, "w") as fo:
                for rid, lines, _ in runs:
                    for l in lines:
                        fo.write(json.dumps(dict(l, id=rid)) + "\n")
            ok, o = tlc.search_trace(module, f, checks or [self.prop], extra=extra)
            if SELFTEST:
                def again(part):
                    with open(f, "w") as fo:
                        for rid, lines, _ in part:
                            for l in lines:
                                fo.write(json.dumps(dict(l, id=rid)) + "\n")
                    return {x[0] for x in part} - set(tlc.search_trace(module, f, checks or [self.prop], extra=extra)[0])
                mutate.selftest(f"{self.prop} {suite}", runs, SELFTEST, self.seed, again)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        self.states += o.distinct
        self.transitions += o.generated
        self.traces += len(runs)
        bad = [r for r in runs if r[0] not in ok]
        self.suites.append(dict(suite=suite, spec=module, runs=len(runs), steps=sum(len(l) for _, l, _ in runs), rejected=len(bad)))
        for rid, lines, rp in bad:
            self.violate(suite, rid, "no explanation", rp, lines)

    def violate(self, suite, rid, what, replay, lines=None):
        REPLAYS.mkdir(parents=True, exist_ok=True)
        name = f"{self.prop}-{suite}-{rid}.json".replace("/", "_")
        p = REPLAYS / name
        p.write_text(json.dumps(dict(property=self.prop, suite=suite, run=rid, rejected=what, seed=self.seed, tier=self.tier,
                                     replay=replay, trace=lines), indent=1, default=str))
        self.violations.append((suite, rid, what, p))


def shorten(l):
    s = json.dumps(l)
    return l if len(s) < 700 else s[:700] + "..."


def load_known():
    f = VERIF / "known-findings.txt"
    res = []
    if f.exists():
        for l in f.read_text().split("\n"):
            if l.startswith("finding:"):
                d = dict(x.split("=", 1) for x in l.split()[1:] if "=" in x)
                res.append((d.get("property"), d.get("key"), l))
    return res


def finish(ctx, level):
    known = [k for k in load_known() if k[0] == ctx.prop]
    bad = []
    for v in ctx.violations:
        hit = [k for k in known if k[1] == f"{v[0]}/{v[1]}"]
        if not hit:
            bad.append(v)
    for k in known:
        print(f"KNOWN-FINDING: property={ctx.prop} {k[2]}")
    cov = dict(states=ctx.states, transitions=ctx.transitions, traces_validated_against_impl=ctx.traces,
               samples=ctx.samples[:12], suites=ctx.suites, design_models=ctx.designs)
    ev = dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed, level=level, coverage=cov,
              wall_s=round(time.time() - ctx.t0, 2), violations=len(bad))
    (OUT / "evidence").mkdir(parents=True, exist_ok=True)
    (OUT / "evidence" / f"{ctx.prop}.json").write_text(json.dumps(ev, indent=1))
    for v in bad[:20]:
        print(f"VIOLATION property={ctx.prop} replay={v[3]} ({v[0]} {v[1]}: {v[2]})")
    if bad:
        return 1
    print(f"{ctx.prop}: held on {ctx.traces} recorded runs; {ctx.states} states, {ctx.transitions} transitions; {time.time() - ctx.t0:.1f}s")
    return 0
