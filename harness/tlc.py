"""Runs TLC and reads what it prints."""
import json, os, re, shutil, subprocess, tempfile
from pathlib import Path
from pk import VERIF, HarnessError

SPEC = VERIF / "spec"


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla(x) for x in sorted(v)) + "}"
    return str(v)


class Out:
    def __init__(self, rc, text):
        self.rc, self.text = rc, text
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
        self.generated, self.distinct = (int(m.group(1)), int(m.group(2))) if m else (0, 0)

    def tuples(self, tag):
        """Printed tuples <<tag, ...>>, as text."""
        return [l for l in self.text.split("\n") if l.startswith(f'<<"{tag}"')]


def run(module, cfg, workers=1, args=(), timeout=800, env=None, heap="4g", deque=False):
    """cfg: text of the configuration."""
    d = tempfile.mkdtemp(prefix="pkgrverif-tlc-")
    try:
        for f in SPEC.glob("*.tla"):
            os.symlink(f, f"{d}/{f.name}")
        Path(d, "run.cfg").write_text(cfg)
        e = dict(os.environ)
        e.update(env or {})
        e["JAVA_TOOL_OPTIONS"] = f"-Xmx{heap} -Xss16m -Djava.io.tmpdir={d}" + (" -Dtlc2.tool.queue.IStateQueue=StateDeque" if deque else "")
        p = subprocess.run(["tlc", "-workers", str(workers), "-metadir", f"{d}/meta", "-noGenerateSpecTE", "-config", "run.cfg", *args,
                            module + ".tla"], cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return Out(p.returncode, p.stdout)
    except subprocess.TimeoutExpired:
        raise HarnessError(f"TLC on {module} exceeded {timeout}s")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def generate(module, profile, n, seed, prefix="", depth=8):
    """Scenarios generated by simulating a generator module."""
    cfg = f"INIT {prefix}Init\nNEXT {prefix}Next\nCHECK_DEADLOCK FALSE\nCONSTANT Profile <- {profile}\n"
    o = run(module, cfg, args=["-simulate", f"num={n}", "-depth", str(depth), "-seed", str(seed)])
    res = []
    for l in o.text.split("\n"):
        if l.startswith('"SCN '):
            res.append(json.loads(json.loads(l)[4:]))
    if len(res) < n * 0.9:
        raise HarnessError(f"generator {module}/{profile} produced {len(res)} of {n} scenarios:\n{o.text[o.text.find("Error"):][:2500]}")
    return res[:n]


def check_trace(module, trace, checks, extra="", timeout=800, view="Pos"):
    """Returns (rejected [(id, line, what)], Out)."""
    cfg = (f"SPECIFICATION TraceSpec\nCONSTANT Checks = {tla(set(checks))}\n{extra}\nVIEW {view}\n"
           "CHECK_DEADLOCK FALSE\nPOSTCONDITION Consumed\n")
    o = run(module, cfg, env={"TRACE": str(trace)}, timeout=timeout)
    rej = []
    for l in o.tuples("REJECTED"):
        m = re.match(r'<<"REJECTED", "([^"]*)", (\d+), "([^"]*)"', l)
        rej.append((m.group(1), int(m.group(2)), m.group(3)))
    if o.rc != 0 or "No error has been found" not in o.text:
        raise HarnessError(f"TLC could not read the trace {trace}:\n" + o.text[-4000:])
    return rej, o


def search_trace(module, trace, checks, extra="", timeout=800):
    """Runs accepted by a specification with hidden steps: (set of ids, Out)."""
    cfg = f"SPECIFICATION TraceSpec\nCONSTANT Checks = {tla(set(checks))}\n{extra}\nCHECK_DEADLOCK FALSE\n"
    o = run(module, cfg, env={"TRACE": str(trace)}, timeout=timeout, workers=8)
    if o.rc != 0 or "No error has been found" not in o.text:
        raise HarnessError(f"TLC could not search the trace {trace}:\n" + o.text[-4000:])
    return {re.match(r'<<"ACCEPTED", "([^"]*)"', l).group(1) for l in o.tuples("ACCEPTED")}, o
