#!/usr/bin/env python3
"""tools/mutants.py COUNT SEED WORKERS [FILE-SUBSTRING]: makes small changes to the program (negated conditions, other operators,
statements left out, other numbers), one at a time, in scratch copies, and runs the checks that should care, with fewer
scenarios.  Lists the changes that none of them noticed: equivalent ones, or blind spots."""
import json, os, random, shutil, subprocess, sys, tempfile, threading, queue
from pathlib import Path
R = Path(__file__).resolve().parent.parent
CHAIN = {
    "cmd/add": "C20 C05", "cmd/remove": "C20", "configlib/add_package": "C20", "cmd/cleanCache": "C18", "cmd/cleanPkgdb": "C18", "cmd/inspect": "C26 C25", "cmd/load": "C24 C10 C27",
    "cmd/plan": "C05 C01 C23 C19 C26 C27 C04 C02", "cmd/install": "C05 C10 C11 C23 C14 C27 C09 C08", "cmd/tarballOps": "C23 C16 C18 C27", "cmd/utils": "C10 C05 C18", "cmd/run": "C21", "cmd/root": "C27 C28 C22",
    "cmd/descriptionOps": "C01 C27", "configlib/": "C27 C02 C21 C01 C22 C20 C28", "cran/repodb": "C19 C02 C28 C18 C03", "cran/sync": "C02 C19", "cran/structs": "C19 C02", "cran/download": "C17 C16 C28 C02", "cran/": "C02 C03 C19 C05",
    "desc/": "C03 C01 C12 C23 C02 C26", "gpsr/": "C01 C06 C07 C26 C05", "logger/": "C27 C22 C24", "pacman/": "C12 C13 C05 C25 C04", "rcmd/install": "C07 C08 C25 C21 C16 C17 C09 C14 C10 C22",
    "rcmd/": "C21 C22 C07 C27 C24 C16 C10", "rollback/": "C11 C13 C14 C12 C05",
}


def chain(f):
    return next(v for k, v in CHAIN.items() if f.startswith(k)).split()


def main():
    count, seed, workers = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3])
    env = dict(os.environ)
    with tempfile.TemporaryDirectory(prefix="mutants-") as t:
        t = Path(t)
        subprocess.run(["go", "build", "-o", str(t / "mut"), "."], cwd=R / "tools/mutator", check=True)
        files = subprocess.run("ls cmd/{add,cleanCache,cleanPkgdb,descriptionOps,inspect,install,load,plan,remove,root,run,tarballOps,utils}.go configlib/{add_package,config,get_customization}.go cran/*.go desc/*.go gpsr/*.go "
                               "logger/logger.go pacman/utils.go rcmd/*.go rollback/*.go | grep -v _test.go", shell=True, executable="/bin/bash", cwd="/repo", stdout=subprocess.PIPE, text=True).stdout.split()
        muts = json.loads(subprocess.run([str(t / "mut"), *files], cwd="/repo", stdout=subprocess.PIPE, text=True).stdout)
        if len(sys.argv) > 4:
            muts = [m for m in muts if sys.argv[4] in m["File"]]
        rng = random.Random(seed)
        rng.shuffle(muts)
        q = queue.Queue()
        for m in muts[:count]:
            q.put(m)
        lock = threading.Lock()

        def work(k):
            d = t / f"w{k}"
            shutil.copytree("/repo", d / "repo", symlinks=True)
            while True:
                try:
                    m = q.get_nowait()
                except queue.Empty:
                    return
                f = d / "repo" / m["File"]
                src = f.read_bytes()
                f.write_bytes(src[:m["Start"]] + m["New"].encode() + src[m["End"]:])
                e = dict(env, VERIF_REPO=str(d / "repo"), VERIF_BUILD=str(d / "build"), VERIF_OUT=str(d / "out"), VERIF_SCALE=os.environ.get("VERIF_SCALE", "0.3"))
                how = "SURVIVED"
                b = subprocess.run(["go", "build", "-o", str(d / "pkgr"), "./cmd/pkgr"], cwd=d / "repo", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if b.returncode:
                    how = "does not build"
                else:
                    for c in chain(m["File"]):
                        try:
                            r = subprocess.run([sys.executable, str(R / "harness/check.py"), c], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
                            if r.returncode:
                                how = f"{c} {r.returncode}"
                                if r.returncode == 2:
                                    how += " " + r.stdout.strip()[-150:].replace("\n", " ")
                                break
                        except subprocess.TimeoutExpired:
                            how = f"{c} timeout"
                            break
                f.write_bytes(src)
                subprocess.run(["rm", "-rf", str(d / "out")])
                with lock:
                    print(f"{how}\t{m['File']}:{m['Line']}\t{m['Kind']}\t{m['Old'][:90]!r} -> {m['New'][:60]!r}", flush=True)

        T = [threading.Thread(target=work, args=(k,)) for k in range(workers)]
        [x.start() for x in T]
        [x.join() for x in T]


main()
