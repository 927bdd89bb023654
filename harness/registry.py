"""Which suites decide which property."""
from common import *
import s_install
import s_set
import s_sec
import s_plan
import s_env
import s_config
import s_meta
import s_load
import s_engine
import s_hist
import s_db
import s_tar
import s_cache
import s_scale


def inst(profile, q, t=None, cmd="install"):
    return (f"install:{profile}", lambda ctx: s_install.install(ctx, profile, ctx.n(q, t), cmd))


def preview(profile, q, t=None, what=("plan", "inspect", "load", "strict")):
    return (f"preview:{profile}", lambda ctx: s_plan.previews(ctx, profile, ctx.n(q, t), what))


def planinst(profile, q, t=None):
    return (f"plan+install:{profile}", lambda ctx: s_plan.plan_then_install(ctx, profile, ctx.n(q, t)))


def life(q, t=None):
    return ("life", lambda ctx: s_plan.lives(ctx, "ProfLife", ctx.n(q, t)))


def engine(profile, q, t=None):
    return (f"engine:{profile}", lambda ctx: s_engine.engine_runs(ctx, profile, ctx.n(q, t)))


def hist(gen, prof, q, t=None, points=3):
    return (f"history:{prof}", lambda ctx: s_hist.histories(ctx, gen, prof, ctx.n(q, t), points))


def scale(q, t=None):
    return ("scale", lambda ctx: s_scale.scale_runs(ctx, ctx.n(q, t)))


def middle(q, t=None):
    return ("middle", lambda ctx: s_scale.scale_runs(ctx, ctx.n(q, t), "ProfMiddle", "middle"))


CHECKS = {
    "C31": dict(level="model_checking", suites=[("cache:ProfReuse", lambda ctx: s_cache.cache_runs(ctx, "ProfReuse", ctx.n(30), ["C31"], served=True)), ("cache:ProfCleaning", lambda ctx: s_cache.cache_runs(ctx, "ProfCleaning", ctx.n(20), ["C31"])),
                                                life(12), inst("ProfMixed", 50), inst("ProfRollback", 40), preview("ProfMixed", 20)]),
    "C30": dict(level="model_checking", suites=[("cache:ProfReuse", lambda ctx: s_cache.cache_runs(ctx, "ProfReuse", ctx.n(90), ["C30"], served=True)), ("cache:ProfCache", lambda ctx: s_cache.cache_runs(ctx, "ProfCache", ctx.n(30), ["C30"]))]),
    "C29": dict(level="model_checking", suites=[("disk", lambda ctx: s_hist.disk_sweep(ctx, "ProfHist", ctx.n(30, 200))), ("disk:undo", lambda ctx: s_hist.disk_sweep(ctx, "ProfUndo", ctx.n(30, 200))), ("disk:http", lambda ctx: s_hist.disk_sweep(ctx, "ProfHttp", ctx.n(30, 200))), ("disk:tar", lambda ctx: s_hist.disk_sweep(ctx, "ProfTar", ctx.n(30, 200)))]),
    "C28": dict(level="model_checking", suites=[("secure", lambda ctx: s_sec.secure_runs(ctx, ctx.n(120)))]),
    "C27": dict(level="model_checking", suites=[("settings", lambda ctx: s_set.settings_runs(ctx, ctx.n(250))), ("settings:broken", lambda ctx: s_set.settings_runs(ctx, ctx.n(120), "ProfBroken"))]),
    "C14": dict(level="model_checking", suites=[("undo", lambda ctx: s_hist.undo_sweep(ctx, "ProfUndo", ctx.n(30, 200))), hist("ProfHist", "ProfCut", 60, points=4), ("sweep", lambda ctx: s_hist.sweep(ctx, "ProfHist", ctx.n(2, 40), ("kill",) if not ctx.thorough else ("kill", "torn")))]),
    "C17": dict(level="model_checking", suites=[hist("ProfHttp", "ProfFaulty", 60), hist("ProfHttp", "ProfBoth", 50)]),
    "C01": dict(level="model_checking", suites=[inst("ProfPlan", 160), inst("ProfPlanBin", 80), inst("ProfMixed", 60), inst("ProfLib", 40)]),
    "C02": dict(level="model_checking", suites=[inst("ProfRepo", 200), inst("ProfMixed", 60)]),
    "C03": dict(level="model_checking", suites=[inst("ProfVer", 160), inst("ProfElig", 120), inst("ProfCompare", 50), inst("ProfMixed", 40)]),
    "C04": dict(level="model_checking", suites=[preview("ProfLib", 60), preview("ProfPlan", 50), preview("ProfMixed", 40)]),
    "C05": dict(level="model_checking", suites=[life(30), planinst("ProfUpdate", 100), planinst("ProfMixed", 60), planinst("ProfRepo", 60), planinst("ProfPlan", 40)]),
    "C25": dict(level="model_checking", suites=[("meta:ProfMeta", lambda ctx: s_meta.meta_runs(ctx, "ProfMeta", ctx.n(150))), ("meta:ProfRepo", lambda ctx: s_meta.meta_runs(ctx, "ProfRepo", ctx.n(60)))]),
    "C26": dict(level="model_checking", suites=[preview("ProfPlan", 80, what=("inspect",)), preview("ProfEngine", 60, what=("inspect",)), preview("ProfMixed", 30, what=("inspect",))]),
    "C06": dict(level="model_checking", suites=[inst("ProfEngine", 150), inst("ProfFail", 60), inst("ProfMixed", 40), middle(60)]),
    "C07": dict(level="model_checking", suites=[life(30), inst("ProfEngine", 100), inst("ProfFail", 60), inst("ProfLib", 60), inst("ProfMixed", 40), middle(40)]),
    "C08": dict(level="model_checking", suites=[engine("ProfFail", 150), engine("ProfNarrow", 150), inst("ProfRollback", 50), middle(40)]),
    "C09": dict(level="model_checking", suites=[inst("ProfFail", 100), inst("ProfEngine", 60), scale(12, 120)]),
    "C10": dict(level="model_checking", suites=[inst("ProfEngine", 100), inst("ProfWide", 60), inst("ProfFail", 40), middle(30), ("load", lambda ctx: s_load.load_runs(ctx, ctx.n(90)))]),
    "C24": dict(level="model_checking", suites=[("load", lambda ctx: s_load.load_runs(ctx, ctx.n(240)))]),
    "C11": dict(level="model_checking", suites=[life(30), inst("ProfRollback", 200), inst("ProfLib", 60)]),
    "C12": dict(level="model_checking", suites=[life(30), inst("ProfUpdate", 150), inst("ProfVer", 80), inst("ProfMixed", 40)]),
    "C13": dict(level="model_checking", suites=[life(30), inst("ProfLib", 100), inst("ProfRollback", 100), inst("ProfUpdate", 50)]),
    "C16": dict(level="model_checking", suites=[life(30), inst("ProfRepo", 100), inst("ProfUpdate", 60), ("cache:ProfCache", lambda ctx: s_cache.cache_runs(ctx, "ProfCache", ctx.n(70), ["C16"]))]),
    "C18": dict(level="model_checking", suites=[("cache:ProfCleaning", lambda ctx: s_cache.cache_runs(ctx, "ProfCleaning", ctx.n(70), ["C16"])), ("db:ProfClean", lambda ctx: s_db.db_runs(ctx, "ProfClean", ctx.n(60)))]),
    "C19": dict(level="model_checking", suites=[("db:ProfDb", lambda ctx: s_db.db_runs(ctx, "ProfDb", ctx.n(140)))]),
    "C20": dict(level="model_checking", suites=[("config", lambda ctx: s_config.config_runs(ctx, ctx.n(250)))]),
    "C21": dict(level="model_checking", suites=[("env", lambda ctx: s_env.env_runs(ctx, ctx.n(150)))]),
    "C22": dict(level="model_checking", suites=[("secret", lambda ctx: s_env.secret_runs(ctx, ctx.n(120, 400)))]),
    "C23": dict(level="model_checking", suites=[life(30), inst("ProfLib", 80), inst("ProfMixed", 40)] + [(f"tarballs:{p}", lambda ctx, p=p, q=q: s_tar.tar_runs(ctx, p, ctx.n(q))) for p, q in (("ProfTars", 60), ("ProfBadTars", 60))]),
}

TECHNIQUE = "TLA+ specification checked with TLC; scenarios generated from it are replayed into the real binary and the recorded runs are checked against it as traces"
NOTE = "Bounded: exhaustive on the model's small constants; on the implementation, every recorded run of the generated scenarios. R is a stand-in that behaves as R CMD INSTALL does towards pkgr."
NOT_APPLICABLE = {}
