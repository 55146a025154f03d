"""C08: process-wide state is left as found."""
import json
import os
import random
import shutil
import tempfile

from .. import boot, gen, seq, spec, glob as globstate
from ..forks import in_fork
from .c04 import mostly

KIND = "full"
CHECKS = ["glob"]
QUICK, THOROUGH = 9000, 100000
NEED = ["evaluations", "assignments", "imports"]
RULE = ("one seed = randomised prior process-wide settings, then a history of constructions, assignments, evaluations and function calls (valid, rejected, raising, interrupted, out of memory), "
        "with a snapshot of some 40 kinds of process-wide state compared after every operation; one seed in eight instead imports the package under those settings, and two in 64 are a session of plotting calls or of "
        "downloads from a simulated server; non-trivial = at least one operation ran")
_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="simc08-")
        import atexit
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


def make(seed, tier="quick"):
    g = mostly(seed)
    rng = g.rng
    pre = globstate.draw(random.Random(seed + 7), "@scratch@")
    if seed % 8 == 5:
        return {"prop": "C08", "seed": seed, "import": True, "ops": [], "cfg": {"glob": True, "pre": pre}}
    if seed % 64 in (19, 51):
        from . import c13, c14
        if seed % 64 == 19:
            return {"prop": "C08", "seed": seed, "ops": [], "plots": _plain(c13.make(seed)), "cfg": {"glob": True, "pre": pre}}
        return {"prop": "C08", "seed": seed, "ops": [], "network": c14.make(seed), "cfg": {"glob": True, "pre": pre}}
    o = g.new(full=rng.choice([0.2, 0.6, 1.0]))
    for _ in range(rng.randint(3, 9)):
        k = rng.random()
        o = g.pick()
        if k < 0.16:
            g.set(o)
        elif k < 0.22:
            g.bad_set(o, hostile=rng.random() < 0.3)
        elif k < 0.40:
            g.call(o, again=0.2)
        elif k < 0.46:
            g.call(o, bad=True)
        elif k < 0.72:
            g.call(o, again=0.2, fault=g.fault(["int", "alloc"]))
        elif k < 0.78:
            g.set(o, fault=g.fault(["int", "alloc"]))
        elif k < 0.82:
            g.new()
        elif k < 0.92:
            g.fn(again=0.2)
        else:
            g.fn(again=0.2, fault=g.fault(["int", "int", "alloc"]))
    return {"prop": "C08", "seed": seed, "ops": g.ops, "cfg": {"glob": True, "pre": pre, "alloc": True}}


def _import_run(pre):
    """Import geoana afresh under the prior settings and look at the difference."""
    import sys
    for m in [m for m in sys.modules if m == "geoana" or m.startswith("geoana.")]:
        del sys.modules[m]
    globstate.prepare(pre)
    a = globstate.take()
    boot.import_geoana()
    return globstate.diff(a, globstate.take())


def _plain(plan):
    for op in plan["ops"]:
        op.pop("disk", None)
        op.pop("file", None)
        op.get("opts", {}).pop("fname", None)
    return plan


MINE = ("rc", "backend", "interactive", "warn")


def _other_run(plan, d):
    """Plotting and downloading: the same sessions as for C13 and C14, looking at nothing but process-wide state."""
    from . import c13, c14
    what, sub = ("plots", plan.get("plots")) if "plots" in plan else ("network", plan["network"])
    sub = json.loads(json.dumps(sub))
    os.makedirs(d, exist_ok=True)
    last = []

    def around(rec, after):
        s = {k: v for k, v in globstate.take().items() if k not in ("files in working directory", "exit handlers")}
        s["functions of other packages"] = [x for x in s["functions of other packages"] if not x.startswith("time.")]       # the simulated clock
        if after:
            x = globstate.diff(last.pop(), s)
            rec["glob"] = ["%s: %s -> %s" % (k, *x[k]) for k in sorted(x)]
        else:
            last.append(s)
    r = in_fork((lambda: c13.session(sub, d)) if what == "plots" else (lambda: c14.session(sub, d, around)), 120)
    if r[0] != "ok":
        return seq.Result(note=str(r[:2]))
    st, v = {}, []
    for op, rec in zip(sub["ops" if what == "plots" else "calls"], r[1]):
        if "out" not in rec:
            continue
        k = "plotting calls" if what == "plots" else "downloads"
        st[k] = st.get(k, 0) + 1
        if "fault" in rec:
            op["fault"]["at"] = rec["fault"]["at"]
            c = "fault.int.%s" % ("fired" if rec["fault"]["fired"] else "not reached")
            st[c] = st.get(c, 0) + 1
        g = [x for x in rec["diff"] if x in MINE or x in c13.PROCESS] if what == "plots" else rec["glob"]
        if g and not v:
            v = [{"kind": "global-state", "where": g[0].split(":")[0], "op": rec["i"], "detail": "%s changed %s" % (op.get("f", "example"), g)}]
    return seq.Result(v, st, what + str(plan["seed"] % 4096), len(r[1]), resolved=dict(plan, **{what: sub}) if v else None)


def run(plan):
    if not globstate.REF:
        r = in_fork(globstate.reference_tables)
        globstate.REF["tables"] = r[1]
    d = os.path.join(scratch(), "w%d" % os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    plan = dict(plan, cfg=dict(plan["cfg"], pre=dict(plan["cfg"]["pre"], cwd=d)))
    if "plots" in plan or "network" in plan:
        res = _other_run(plan, d)
        if res.resolved:
            res.resolved["cfg"]["pre"]["cwd"] = "@scratch@"
        shutil.rmtree(d, ignore_errors=True)
        return res
    if plan.get("import"):
        r = in_fork(lambda: _import_run(plan["cfg"]["pre"]), 60)
        if r[0] != "ok":
            return seq.Result(note=str(r))
        v = []
        if r[1]:
            g = sorted(r[1])[0]
            v = [{"kind": "global-state", "where": g, "op": -1, "detail": "importing geoana changed %s: %s -> %s" % (g, *r[1][g])}]
        return seq.Result(v, {"imports": 1}, "import" + str(sorted(plan["cfg"]["pre"].items()))[:0] + str(plan["seed"] % 64), 1, resolved=dict(plan, cfg=dict(plan["cfg"], pre=dict(plan["cfg"]["pre"], cwd="@scratch@"))))
    res = seq.run(plan, CHECKS)
    if res.resolved:
        res.resolved["cfg"]["pre"]["cwd"] = "@scratch@"
    shutil.rmtree(d, ignore_errors=True)
    return res


def shrink(plan):
    if "plots" in plan:
        from . import c13
        return (dict(plan, plots=p) for p in c13.shrink(plan["plots"]))
    if "network" in plan:
        from . import c14
        return (dict(plan, network=p) for p in c14.shrink(plan["network"]))
    return seq.shrink_candidates(plan)
