"""The specifications that are model-checked completely, on small constants: which, for which property.

Each entry: (tier, module, what it shows, configuration, expectation).  An expectation other than "ok" names the
invariant that the variant of the design must violate (or "deadlock"): it shows that the property is not vacuous
there, and that the mechanism which the variant leaves out is what upholds it."""


def cfg(spec="Spec", consts="", defs=(), inv="", props="", deadlock=True):
    t = f"SPECIFICATION {spec}\n"
    if consts:
        t += f"CONSTANTS {consts}\n"
    for d in defs:
        t += f"CONSTANT {d}\n"
    if inv:
        t += f"INVARIANTS {inv}\n"
    if props:
        t += f"PROPERTIES {props}\n"
    return t + ("" if deadlock else "CHECK_DEADLOCK FALSE\n")


RES = "PlanIsLeast NothingForbidden CycleFound NeedsAreReached Inverse Orderly"
RESOLVE = [
    ("quick", "MCResolve", "every dependency graph over two packages", cfg(consts='Dims = "graph" Names = {"a","b"}', inv=RES), "ok"),
    ("thorough", "MCResolve", "every dependency graph over three packages", cfg(consts='Dims = "graph3" Names = {"a","b","c"}', inv=RES), "ok"),
]
ORIGIN = [("quick", "MCResolve", "every repository order, type and availability", cfg(consts='Dims = "origin" Names = {"a"}', inv="PlanIsLeast RightOrigin"), "ok")]
VERS = [("quick", "MCVersions", "every version of up to three parts", cfg(consts="L = 3 M = 2", inv="Antisymmetric Transitive SameWhenPadded LikeNumbers Operators"), "ok")]
INSTALL = [("quick", "MCInstall", "every library, plan and command over two packages", cfg("MCSpec", 'Names = {"a","b"} Cmds = {"install","plan"} Threads = {1, 2}', ["Checks <- AllIds"], "Fine Announced"), "ok")]
ENG = "Bounded NeedsFirst NothingAfterFailure AllInstalled Once"
ENGINE = [("quick", "MCEngine", "every graph of four packages, two workers, every failure", cfg("MCSpec", "N = 4 W = 2", inv=ENG, props="FrozenReady Ends", deadlock=False), "ok"),
          ("thorough", "MCEngine", "every graph of four packages, three workers, every failure", cfg("MCSpec", "N = 4 W = 3", inv=ENG, props="FrozenReady Ends", deadlock=False), "ok")]
EI = "WgRight NothingLeft Complete QueueBounds"
IMPL = [
    ("quick", "EngineImpl", "goroutines and channels refine the engine", cfg("HSpec", "N = 3 W = 2 SigCap = 3 WqCap = 1 UqCap = 1", inv=EI, props="Refines"), "ok"),
    ("quick", "EngineImpl", "the queues are empty and the goroutines at rest at the end", cfg("HSpec", "N = 3 W = 2 SigCap = 3 WqCap = 1 UqCap = 1", inv=EI, props="Finishes"), "ok"),
    ("thorough", "EngineImpl", "four packages", cfg("HSpec", "N = 4 W = 2 SigCap = 4 WqCap = 2 UqCap = 1", inv=EI, props="Refines"), "ok"),
    ("thorough", "EngineImpl", "a star of seven", cfg("HSpec", "N = 7 W = 2 SigCap = 7 WqCap = 1 UqCap = 1", ["Dags <- Star"], EI, "Refines"), "ok"),
]
NARROWQ = [("quick", "EngineImpl", "a signal queue smaller than the plan", cfg("HSpec", "N = 7 W = 1 SigCap = 1 WqCap = 1 UqCap = 1", ["Dags <- Star"], EI), "deadlock")]
LIBI = "NoLeftovers OthersStay Converges Restores Stays NothingLost NothingBroken"
LIBRARY = [
    ("quick", "Library", "one package of a repository, one tarball, two kills", cfg(consts="Repo = {1} Tars = {2} Others = {3} Kills = 2 SafeRemoval = TRUE Faults = 0 Careful = TRUE", inv=LIBI), "ok"),
    ("thorough", "Library", "two packages, one tarball, one kill", cfg(consts="Repo = {1,2} Tars = {3} Others = {4} Kills = 1 SafeRemoval = TRUE Faults = 0 Careful = TRUE", inv=LIBI), "ok"),
    ("thorough", "Library", "two packages, one tarball, two kills", cfg(consts="Repo = {1,2} Tars = {3} Others = {4} Kills = 2 SafeRemoval = TRUE Faults = 0 Careful = TRUE", inv=LIBI), "ok"),
]
FAULTS = [
    ("quick", "Library", "one kill and one fault of the disk", cfg(consts="Repo = {1} Tars = {2} Others = {3} Kills = 1 SafeRemoval = TRUE Faults = 1 Careful = TRUE", inv=LIBI), "ok"),
    ("quick", "Library", "careless about faults", cfg(consts="Repo = {1} Tars = {2} Others = {3} Kills = 0 SafeRemoval = TRUE Faults = 1 Careful = FALSE", inv=LIBI), "NothingLost"),
    ("thorough", "Library", "two faults of the disk", cfg(consts="Repo = {1,2} Tars = {3} Others = {4} Kills = 1 SafeRemoval = TRUE Faults = 2 Careful = TRUE", inv=LIBI), "ok"),
]
UNSAFE = [("quick", "Library", "removal in place", cfg(consts="Repo = {1} Tars = {2} Others = {3} Kills = 2 SafeRemoval = FALSE Faults = 0 Careful = TRUE", inv=LIBI), "NothingLost")]


def cache(key, atomic=True, strict=True, kills=1, troubles=1, runs=2, keep=True, inv="RightContent NeverPoisoned CacheWhole UsedAgain"):
    t = lambda b: "TRUE" if b else "FALSE"
    return cfg(consts="KeyOn = {" + ",".join(f'"{k}"' for k in key) + f"}} Atomic = {t(atomic)} Strict = {t(strict)} Kills = {kills} Troubles = {troubles} Runs = {runs} Keep = {t(keep)}",
               inv=inv, deadlock=False)


KEY = ("addr", "suf", "type", "minor")
CACHE = [
    ("quick", "CacheImpl", "two installs over one cache", cache(KEY), "ok"),
    ("thorough", "CacheImpl", "three installs over one cache", cache(KEY, runs=3), "ok"),
    ("thorough", "CacheImpl", "three installs over one cache, names too", cache(("name",) + KEY, runs=3), "ok"),
]
KEYED = [("quick", "CacheImpl", f"a place that forgets the {k}", cache([x for x in KEY if x != k], kills=0, troubles=0), "RightContent") for k in KEY]
FORGET = [("quick", "CacheImpl", "builds that are not kept", cache(KEY, kills=0, troubles=0, keep=False), "UsedAgain")]
WHOLE = [("quick", "CacheImpl", "files written in place", cache(KEY, atomic=False), "NeverPoisoned CacheWhole RightContent"),
         ("quick", "CacheImpl", "short answers taken for whole ones", cache(KEY, strict=False), "NeverPoisoned CacheWhole RightContent")]
CLEAN = [("quick", "MCClean", "every cache, every clean command", cfg(consts='Checks = {"C18"}', inv="Unique Idempotent Both Each Foreign Absent"), "ok")]
DBI = "NoBadRemembered Genuine Trustworthy Apart"
DB = [("quick", "MCDb", "three runs over remembered descriptions", cfg(consts="T = 3 Ttl = 2 Runs = 3", inv=DBI, deadlock=False), "ok"),
      ("thorough", "MCDb", "four runs over remembered descriptions", cfg(consts="T = 4 Ttl = 2 Runs = 4", inv=DBI, deadlock=False), "ok")]
CONFIG = [("quick", "ConfigImpl", "every file of up to six lines", cfg(consts='L = 6 Pkgs = {"a", "b"}', inv="Right Undone", deadlock=False), "ok"),
          ("thorough", "ConfigImpl", "every file of up to seven lines", cfg(consts='L = 7 Pkgs = {"a", "b"}', inv="Right Undone", deadlock=False), "ok")]
ENV = [("quick", "EnvImpl", "every environment of up to three variables", cfg(consts="L = 3", inv="Right NoSecret"), "ok")]
LOAD = [("quick", "LoadImpl", "every schedule of three loads", cfg(consts="Asked = {1, 2, 3} Workers = 1", inv="Exact", props="Refines Ends"), "ok")]
META = [("quick", "MetaImpl", "every DESCRIPTION of up to five lines", cfg(consts="L = 5", inv="Right StaysProper", deadlock=False), "ok"),
        ("thorough", "MetaImpl", "every DESCRIPTION of up to six lines", cfg(consts="L = 6", inv="Right StaysProper", deadlock=False), "ok")]
SI = "Found RightR RightLib RightLog NoLib"


def settings(r, home):
    return cfg(consts=f"RFixed = {r} HomeBefore = {home}", inv=SI, deadlock=False)


SETTINGS = [("quick", "SettingsImpl", "every form of every path", settings("TRUE", "TRUE"), "ok"),
            ("quick", "SettingsImpl", "R asked for before it is resolved", settings("FALSE", "TRUE"), "RightR"),
            ("quick", "SettingsImpl", "the path of the file simplified before ~ is expanded", settings("TRUE", "FALSE"), "Found")]


def secure(pkg, retry, runs=2):
    return cfg(consts=f"Runs = {runs} PkgChecked = {pkg} Retries = {retry}", inv="Guarded Right", deadlock=False)


SECURE = [("quick", "SecureImpl", "two runs against every kind of server", secure("TRUE", "FALSE"), "ok"),
          ("thorough", "SecureImpl", "three runs against every kind of server", secure("TRUE", "FALSE", 3), "ok"),
          ("quick", "SecureImpl", "packages fetched without checks", secure("FALSE", "FALSE"), "Guarded Right"),
          ("quick", "SecureImpl", "a refused connection made again without checks", secure("TRUE", "TRUE", 1), "Guarded Right")]

DESIGNS = {
    "C01": RESOLVE, "C02": ORIGIN, "C03": VERS + ORIGIN, "C04": INSTALL, "C05": INSTALL, "C06": ENGINE[:1] + IMPL[:1], "C07": ENGINE + IMPL[2:3],
    "C08": ENGINE[:1] + IMPL[:2], "C09": ENGINE[:1] + IMPL + NARROWQ, "C10": ENGINE[:1] + LOAD, "C11": LIBRARY, "C12": INSTALL + VERS, "C13": LIBRARY[:1],
    "C14": LIBRARY + UNSAFE, "C16": CACHE + KEYED, "C30": CACHE + FORGET, "C17": CACHE + WHOLE, "C18": CLEAN, "C19": DB, "C20": CONFIG, "C21": ENV, "C22": ENV, "C23": INSTALL,
    "C24": LOAD, "C25": META, "C26": RESOLVE, "C27": SETTINGS, "C28": SECURE, "C29": FAULTS, "C31": SETTINGS,
}


def run(ctx):
    from concurrent.futures import ThreadPoolExecutor
    todo = [d for d in DESIGNS.get(ctx.prop, []) if d[0] == "quick" or ctx.thorough]

    def one(d):
        _, module, what, c, expect = d
        ctx.design(module, c, workers=4, timeout=420 if not ctx.thorough else 3600, expect=expect, name=what)
    # two at a time, four workers each
    with ThreadPoolExecutor(2) as ex:
        list(ex.map(one, todo))
