"""C07: missing optional components never change the numbers."""
import contextlib
import hashlib
import io
import json

import numpy as np

from .. import boot, exe, gen, seq, spec
from ..forks import in_fork
from ..oracle import jiggle
from ..vals import attempt, ending, same_value, within_conditioning, brief

KIND = "bare"
QUICK, THOROUGH = 6500, 60000
NEED = ["results compared"]
RULE = ("one seed = one subset of {prism extension, reflection extension, extension package, numba, matplotlib, pyplot, utm, requests} failing at import (ModuleNotFoundError or ImportError) and one "
        "workload of 4-12 evaluations biased to what the missing parts implement (points on vertices, edges and faces; 1-many layers, frequencies and filter points), run in a process with everything "
        "and in one without; results, shapes, types and accept/reject decisions are compared, show_config is checked against the truth, functions needing a missing part must name it; "
        "non-trivial = at least one pair of results compared with something missing")
TOL = 1e-9
EXT = "geoana.kernels._extensions"
PARTS = {"prism": EXT + ".potential_field_prism", "rTE": EXT + ".rTE", "extensions": EXT, "numba": "numba", "matplotlib": "matplotlib", "pyplot": "matplotlib.pyplot", "utm": "utm", "requests": "requests"}
PRISMS = ["gravity.Prism", "em.static.MagneticPrism"]
PRISM_FN = ["kernels.prism_f", "kernels.prism_fz", "kernels.prism_fzz", "kernels.prism_fzx", "kernels.prism_fzy", "kernels.prism_fzzz", "kernels.prism_fxxy", "kernels.prism_fxxz", "kernels.prism_fxyz"]
RTE_FN = ["kernels.rTE_forward", "kernels.rTE_gradient"]


def make(seed, tier="quick"):
    g = gen.Gen(seed)
    rng = g.rng
    g.pbuf = 0
    k = rng.random()
    if k < 0.5:
        parts = [rng.choice(["prism", "rTE", "extensions"])]
    elif k < 0.7:
        parts = [rng.choice(["numba", "matplotlib", "pyplot", "utm", "requests"])]
    else:
        parts = [p for p in PARTS if rng.random() < 0.45] or ["extensions", "matplotlib"]
    prism = bool({"prism", "extensions"} & set(parts))
    rte = bool({"rTE", "extensions"} & set(parts))
    focus = (["prism"] * 3 if prism else []) + (["rte"] * 3 if rte else []) + ["any"]
    for _ in range(rng.randint(3, 7)):
        f = rng.choice(focus)
        if f == "prism":
            if rng.random() < 0.4:
                o = g.new(spec.BY_NAME[rng.choice(PRISMS)], full=rng.choice([0.5, 1.0]))
                for _ in range(rng.choice([1, 2, 3])):
                    op = g.call(o, again=0.2, keep=0)
                    if rng.random() < 0.6 and op["op"] == "call":
                        op["args"][0] = _edge_points(rng, g.objs[o][1])
            else:
                a = _prism_args(rng)
                for f in rng.sample(PRISM_FN, rng.choice([1, 3, 5])):
                    g.ops.append({"op": "fn", "f": f, "args": a, "kw": {}})
        elif f == "rte":
            if rng.random() < 0.4:
                o = g.new(spec.BY_NAME[gen.LAYERED], full=rng.choice([0.5, 1.0]))
                g.call(o, keep=0)
                g.call(o, keep=0)
            else:
                fn = spec.FN_BY_NAME[rng.choice(RTE_FN)]
                a, kw = fn.gen(rng)
                g.ops.append({"op": "fn", "f": fn.name, "args": a, "kw": kw})
        elif rng.random() < 0.7:
            o = g.new(full=0.6)
            g.call(o, keep=0)
            if rng.random() < 0.3:
                g.bad_set(o)
        else:
            while True:
                n = len(g.ops)
                g.fn(again=0, keep=0)
                if not g.ops[-1]["f"].startswith("kernels.prism"):
                    break
                del g.ops[n:]
    ops = [_nonzero(op) for op in g.ops]
    return {"prop": "C07", "seed": seed, "parts": sorted(parts), "exc": rng.choice(["ModuleNotFoundError", "ModuleNotFoundError", "ImportError"]), "ops": ops, "cfg": {}, "needs": rng.random() < 0.5}


def _prism_args(rng):
    shape = rng.choice([(1,), (5,), (3, 4), (2, 2, 3), (8,)])
    n = int(np.prod(shape))
    out = []
    for _ in range(3):
        v = [rng.choice([0.0, 0.0, -1.0, 2.0]) if rng.random() < 0.25 else round(rng.uniform(-5, 5), 4) for _ in range(n)]
        out.append({"t": "arr", "v": np.array(v).reshape(shape).tolist(), "dt": "f8"})
    k = rng.random()
    if k < 0.2:                       # so near an axis that the sum of a coordinate and the distance vanishes
        for j in rng.sample([0, 1, 2], rng.choice([1, 2, 2])):
            f = rng.choice([1e-7, 1e-9, 1e-12, 1e-17])
            out[j]["v"] = (np.array(out[j]["v"]) * f).tolist()
    elif k < 0.3:
        s = rng.choice([1e-4, 1e4, 1e6])
        for o in out:
            o["v"] = (np.array(o["v"]) * s).tolist()
    elif k < 0.45:                    # points on an axis, on the negative side too
        for j in rng.sample([0, 1, 2], 2):
            out[j]["v"] = np.zeros(shape).tolist()
    return out


def _edge_points(rng, st):
    """Points on vertices, edges, faces, extensions of edges, inside and outside of the prism."""
    lo, hi = st["min_location"], st["max_location"]
    pts = []
    for _ in range(rng.choice([1, 3, 6])):
        p = []
        for d in range(3):
            k = rng.random()
            p.append(float(lo[d]) if k < 0.25 else float(hi[d]) if k < 0.5 else float(0.5 * (lo[d] + hi[d])) if k < 0.7 else float(rng.choice([lo[d] - 3.0, hi[d] + 2.0, hi[d] + 40.0])))
        pts.append(p)
    return {"t": "arr", "v": pts, "dt": "f8"}


def rounding(obj, method, xyz):
    """Rounding level of a prism formula per point: the closed form is a sum over corners of terms that grow with distance and cancel."""
    x = np.stack(np.broadcast_arrays(*xyz), axis=-1) if isinstance(xyz, tuple) else np.asarray(xyz, dtype=float)
    lo, hi = np.asarray(obj.min_location), np.asarray(obj.max_location)
    d = np.maximum(np.abs(x - lo), np.abs(x - hi))
    far = np.sqrt((d ** 2).sum(axis=-1))
    near = np.minimum(np.abs(x - lo), np.abs(x - hi))
    near = np.sqrt(np.sort(near, axis=-1)[..., 0] ** 2 + np.sort(near, axis=-1)[..., 1] ** 2)      # distance to the nearest line of an edge
    near = np.maximum(near, 1e-12 * far)
    term, rank = {"gravitational_potential": (far ** 2, 0), "gravitational_field": (far, 1), "gravitational_gradient": (1 + 0 * far, 2),
                  "scalar_potential": (far, 0), "magnetic_field": (1 + 0 * far, 1), "magnetic_flux_density": (1 + 0 * far, 1), "magnetic_field_gradient": (1 / near, 2)}[method]
    if method.startswith("grav"):
        scale = 6.7e-11 * abs(float(obj.rho))
    else:
        scale = float(np.abs(obj.magnetization).max()) * (1.3e-6 if method == "magnetic_flux_density" else 1.0) / (4 * np.pi)
    t = 2.3e-16 * 8 * 20 * scale * np.maximum(1.0, np.abs(np.log(far))) * term
    return t.reshape(t.shape + (1,) * rank)


def _nonzero(op):
    """No zero frequencies: there the two implementations may differ by rounding of 0/0 forms."""
    if op["op"] == "new" and "frequency" in op["kw"]:
        d = json.loads(json.dumps(op["kw"]["frequency"]).replace(" 0.0,", " 1.0,").replace("[0.0,", "[1.0,").replace(" 0.0]", " 1.0]").replace("[0.0]", "[1.0]").replace(": 0.0}", ": 1.0}"))
        return dict(op, kw=dict(op["kw"], frequency=d))
    if op["op"] == "fn" and op["f"].startswith("kernels.rTE"):
        a = list(op["args"])
        a[0] = json.loads(json.dumps(a[0]).replace("[0.0,", "[1.0,").replace(" 0.0,", " 1.0,").replace(" 0.0]", " 1.0]").replace("[0.0]", "[1.0]").replace(": 0.0}", ": 1.0}"))
        return dict(op, args=a)
    return op


def session(plan, parts, jig=None):
    """Import the package with the given parts missing and run the workload."""
    exc = {"ModuleNotFoundError": ModuleNotFoundError, "ImportError": ImportError}[plan["exc"]]
    for p in parts:
        boot.forget(PARTS[p])
        boot.block(PARTS[p], exc=exc)
    out = {}
    r = attempt(boot.import_geoana)
    if not r[0]:
        return {"import": ending(r)[0]}
    import geoana
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        r = attempt(geoana.show_config)
        out["config"] = (ending((r[0], r[1].get("compiled", "absent") if r[0] and isinstance(r[1], dict) else r[1]))[0], str(r[1].get("compiled")) in buf.getvalue() if r[0] and isinstance(r[1], dict) else False)
    ex = exe.Exec({"ops": [], "cfg": {}})
    if jig is not None:
        rng = np.random.RandomState(jig)
        real = ex.real
        ex.real = lambda d: jiggle(real(d), rng)
    recs = []
    for i, op in enumerate(plan["ops"]):
        rec = {"i": i}
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                ex.step(op, rec)
        except exe.Missing:
            rec["skipped"] = True
        rec = {k: rec[k] for k in ("i", "out", "skipped") if k in rec}
        if op["op"] == "call" and "out" in rec and rec["out"][0] == "ok" and ex.cls[op["obj"]].name in PRISMS:
            rec["floor"] = rounding(ex.objs[op["obj"]], op["m"], ex.real(op["args"][0]))
        recs.append(rec)
    out["recs"] = recs
    if plan["needs"] and jig is None:
        out["needs"] = needs()
    return out


def needs():
    """Functions that need an optional part: what happens, and what is said."""
    import geoana.earthquake.oksar as ok
    import geoana.plotting_utils as pu
    res = {}

    def matplotlib_plot():
        pu.plot2Ddata(np.array([[0.0, 0.0], [1.0, 0.0], [0.0, 1.0], [1.0, 1.0]]), np.arange(4.0))

    def interferogram():
        return ok.EarthquakeInterferogram(np.zeros(4), "t", [0.0, 0.0], 35, (2, 2), [80.0, 80.0], [741140.0, 4230327.0], 23.0, 192.0, 788792.0, "x")

    def oksar_plot():
        interferogram().plot_interferogram()

    def los():
        interferogram().get_LOS_vector([np.array([[706216.0, 4269238.0]])])

    def download():
        import socket

        def refuse(*a, **k):
            raise ConnectionRefusedError("simulated: no network")
        socket.create_connection, socket.getaddrinfo = refuse, refuse
        ok.example()
    for name, part, f in (("plot2Ddata", "matplotlib", matplotlib_plot), ("plot_interferogram", "matplotlib", oksar_plot), ("get_LOS_vector", "utm", los), ("example", "requests", download)):
        o, e = io.StringIO(), io.StringIO()
        with contextlib.redirect_stdout(o), contextlib.redirect_stderr(e):
            r = attempt(f)
        res[name] = (part, ending((r[0], None if r[0] else r[1]))[0], o.getvalue() + e.getvalue(), isinstance(r[1], ImportError))
    return res


def run(plan):
    parts = plan["parts"]
    full = in_fork(lambda: session(plan, []), 120)
    deg = in_fork(lambda: session(plan, parts), 120)
    for r in (full, deg):
        if r[0] != "ok":
            if seq.crashed(r):
                return seq.Result([{"kind": "process-died", "where": "+".join(parts), "op": -1, "detail": "the process ended with %s" % r[1]}], {}, "died", len(plan["ops"]), resolved=plan)
            return seq.Result(note="%s: %s" % r)
    full, deg = full[1], deg[1]
    st, viol = {}, []

    def bad(kind, where, i, detail):
        viol.append({"kind": kind, "where": where, "op": i, "detail": detail})

    def count(k):
        st[k] = st.get(k, 0) + 1
    for p in parts:
        count("fault.missing:%s.fired" % p)
    miss = "without " + ", ".join(parts)
    if "import" in full:
        return seq.Result(note="import fails with everything present: %s" % brief(full["import"]))
    if "import" in deg:
        bad("import-fails", "+".join(parts), -1, "%s: import geoana raised %s" % (miss, brief(deg["import"])))
        return seq.Result(viol, st, "import", len(plan["ops"]), resolved=plan)
    want = not ({"prism", "rTE", "extensions"} & set(parts))
    for cfg, truth, about in ((full["config"], True, "with everything present"), (deg["config"], want, miss)):
        count("configuration reports checked")
        if cfg[0] != ("ok", ("v", "bool", truth)):
            bad("config-untrue", "show_config", -1, "%s: compiled reported as %s, truth is %s" % (about, brief(cfg[0]), truth))
    sig = [tuple(parts)]
    var = None
    for op, a, b in zip(plan["ops"], full["recs"], deg["recs"]):
        if viol:
            break
        if "out" not in a and "out" not in b:
            continue
        if op.get("m") == "get_LOS_vector" and "utm" in parts:
            continue                       # needs utm; checked below
        where = op.get("f") or op.get("cls") or op.get("m") or op.get("p")
        x, y = a.get("out"), b.get("out")
        sig.append((op["op"], where, x and x[0], y and y[0]))
        if x is None or y is None or x[0] != y[0]:
            bad("decision-differs", where, a["i"], "%s: %s; with everything: %s" % (miss, brief(y), brief(x)))
            break
        count("results compared" if x[0] == "ok" else "rejections compared")
        if x[0] == "err":
            continue
        if not same_value(x[1], y[1], TOL):
            if var is None:
                var = [r[1]["recs"] for r in (in_fork(lambda k=k: session(plan, [], k), 120) for k in range(6)) if r[0] == "ok"]
            if within_conditioning(y, x, [v[a["i"]]["out"] for v in var if "out" in v[a["i"]]], a.get("floor", 0.0)):
                count("results compared up to the conditioning of the formula")
                continue
            bad("value-differs", where, a["i"], "%s: %s; with everything: %s" % (miss, brief(y), brief(x)))
    if "needs" in deg and not viol:
        block = set()
        for p in parts:
            block.add({"pyplot": "matplotlib"}.get(p, p))
        for name, (part, o, said, imp) in sorted(deg["needs"].items()):
            count("dependent functions checked")
            f = full["needs"][name]
            if part in block:
                told = part in said if o[0] == "ok" else (imp and part in o[2])
                if not told:
                    bad("missing-part-not-named", name, -1, "%s: %s, output %r" % (miss, brief(o), said[:100]))
            elif o[:2] != f[1][:2]:
                bad("unaffected-function-fails", name, -1, "%s: %s; with everything: %s" % (miss, brief(o), brief(f[1])))
    res = seq.Result(viol, st, hashlib.sha1(repr(sig).encode()).hexdigest()[:16], len(plan["ops"]), resolved=plan if viol else None)
    return res


def shrink(plan):
    for p in plan["parts"]:
        if len(plan["parts"]) > 1:
            yield dict(plan, parts=[q for q in plan["parts"] if q != p])
    if plan["needs"]:
        yield dict(plan, needs=False)
    if len(plan["ops"]) == 1:
        yield dict(plan, ops=[])
    yield from seq.shrink_candidates(plan)
