"""C04: nothing the caller passes in is ever modified, and read-only arrays are accepted."""
import hashlib
import json

from . import c13
from .. import exe, faults, gen, seq, spec
from ..forks import in_fork
from ..watch import Watch
from ..vals import attempt, ending, fingerprint, brief

KIND = "full"
CHECKS = ["touch", "eval"]
QUICK, THOROUGH = 9000, 120000
NEED = ["evaluations", "assignments"]
RULE = ("one seed = one history of constructions, assignments, evaluations and function calls with arrays in every layout (contiguous, Fortran, strided, reversed, column slices, read-only, "
        "integer, single precision), lists and tuples; contents and flags of every caller-owned object (and the base arrays of views) are compared before and after each operation, including "
        "ones that raise or are interrupted or run out of memory; results for read-only arguments are compared with the reference for writable ones; one seed in twelve is a series of plotting calls with option dictionaries, data, masks and limits instead; non-trivial = at least one array passed")


def mostly(seed):
    """Half of the seeds: each method and parameter in turn, with each function in turn."""
    if seed % 2:
        return gen.Gen(seed, [spec.CLASSES[seed % len(spec.CLASSES)]])
    k = seed // 2
    fns = spec.FUNCS + spec.HELPERS
    cls, m = gen.METHODS[k % len(gen.METHODS)]
    ps = spec.settable(cls)
    p = ps[k // len(gen.METHODS) % len(ps)]
    return gen.Gen(seed, [cls]).focus(m, p, fns[k % len(fns)])


def make(seed, tier="quick"):
    if seed % 12 == 5:
        return make_plots(seed)
    g = mostly(seed)
    rng = g.rng
    g.pbuf = 0.8
    o = g.new(full=rng.choice([0.5, 1.0]))
    for _ in range(rng.randint(4, 10)):
        k = rng.random()
        o = g.pick()
        if k < 0.30:
            g.set(o)
        elif k < 0.36:
            g.bad_set(o)
        elif k < 0.56:
            g.call(o, again=0.25)
        elif k < 0.60:
            g.call(o, bad=True)
        elif k < 0.70:
            g.call(o, again=0.3, fault=g.fault(["int", "alloc", "fp"]))
        elif k < 0.76:
            g.set(o, fault=g.fault(["int", "alloc"]))
        elif k < 0.80:
            g.new()
        elif k < 0.95:
            g.fn(again=0.2)
        else:
            g.fn(again=0.2, fault=g.fault(["int", "alloc"]))
    return {"prop": "C04", "seed": seed, "ops": g.ops, "cfg": {"fp": True, "alloc": True}}


def make_plots(seed):
    g = gen.Gen(seed)
    rng = g.rng
    ops, dicts = [], []
    for _ in range(rng.randint(1, 3)):
        op = c13._plot2d(rng, [], dicts) if rng.random() < 0.8 else c13._inter(rng, [])
        op["lay"] = {k: rng.choice(spec.LAYS) for k in ("xyz", "data", "mask", "clim")}
        op["own"] = rng.random() < 0.3                    # on axes of the caller's
        op.pop("fault", None)
        if rng.random() < 0.25:
            op["fault"] = {"kind": rng.choice(["int", "alloc"]), "frac": round(rng.random(), 4), "aim": rng.random() < 0.5}
        ops.append(op)
    return {"prop": "C04", "seed": seed, "plots": True, "ops": ops, "cfg": {}}


def plots(plan, lays=True):
    import matplotlib.pyplot as plt
    s = c13.Session("/nonexistent")
    recs = []
    for op in plan["ops"]:
        if not lays:
            op = {k: v for k, v in op.items() if k not in ("lay", "fault")}
        ax = plt.figure(figsize=(2, 2)).add_subplot() if op["own"] else None
        fn, own, src = s.call(op, ax)
        own = own + list(s.dicts.values())
        icls = spec.BY_NAME["earthquake.oksar.EarthquakeInterferogram"]
        pre = [fingerprint(x) for x in own]
        pso = repr(exe.observe(icls, src)) if src is not None else None
        rec = {}
        f = op.get("fault")
        if f:
            at = faults.place(f, fn, lambda: Watch([src] if src is not None else [], own), 60)
            with faults.make(f, at or 0) as c:
                r = attempt(fn)
            rec["fault"] = {"at": at, "fired": bool(c.result()[1]), "kind": f["kind"]}
        else:
            r = attempt(fn)
        rec["out"] = ending((r[0], None if r[0] else r[1]))[0]
        rec["owned"] = [j for j, x in enumerate(own) if fingerprint(x) != pre[j]]
        rec["src"] = src is not None and repr(exe.observe(icls, src)) != pso
        if not f and r[0]:
            rec["look"] = [c13.look(a) for a in plt.gcf().axes]
        plt.close("all")
        recs.append(rec)
    return recs


def run_plots(plan):
    plan = json.loads(json.dumps(plan))
    n = len(plan["ops"])
    st, viol = {}, []

    def count(k):
        st[k] = st.get(k, 0) + 1
    rs = [in_fork(lambda lays=lays: plots(plan, lays), 120) for lays in (True, False)]
    if rs[0][0] == "died" and seq.crashed(rs[0]):
        return seq.Result([{"kind": "process-died", "where": "plotting", "op": -1, "detail": "the process ended with %s" % rs[0][1]}], {}, "died", n, resolved=plan)
    if rs[0][0] == "died" and rs[0][1] == "exit 70":
        return seq.Result(stats={"numpy itself crashed on the injected allocation failure": 1}, sig="numpy", steps=n)
    for r in rs:
        if r[0] != "ok":
            return seq.Result(note="%s: %s" % r)
    sig = []
    for i, (op, rec, ref) in enumerate(zip(plan["ops"], rs[0][1], rs[1][1])):
        count("plotting calls")
        sig.append((op["f"], sorted(op["kw"]), sorted(op["opts"]), rec["out"][:2]))
        f = rec.get("fault")
        if f:
            op["fault"]["at"] = f["at"]
            count("fault.%s.%s" % (f["kind"], "fired" if f["fired"] else "not reached"))
        if rec["owned"] or rec["src"]:
            viol.append({"kind": "argument-modified", "where": op["f"], "op": i, "detail": "the call changed %s (outcome %s%s)" % (
                "the source it plots" if rec["src"] else "argument data or option dictionary number %s" % rec["owned"], brief(rec["out"]) if rec["out"][0] == "err" else "ok", ", fault %s" % f if f else "")})
        elif not f and (rec["out"][0] != ref["out"][0] or rec.get("look") != ref.get("look")):
            viol.append({"kind": "layout-matters", "where": op["f"], "op": i, "detail": "arrays laid out as %s: %s; plain arrays: %s" % (op["lay"], rec["out"][:2], ref["out"][:2])})
        if viol:
            break
    return seq.Result(viol, st, hashlib.sha1(repr(sig).encode()).hexdigest()[:16], n, resolved=dict(plan, ops=plan["ops"][: viol[0]["op"] + 1]) if viol else None)


def run(plan):
    return run_plots(plan) if plan.get("plots") else seq.run(plan, CHECKS)


def shrink(plan):
    if not plan.get("plots"):
        yield from seq.shrink_candidates(plan)
        return
    ops = plan["ops"]
    for i in range(len(ops)):
        if len(ops) > 1:
            yield dict(plan, ops=ops[:i] + ops[i + 1:])
    for i, op in enumerate(ops):
        for k in list(op["kw"]):
            yield dict(plan, ops=ops[:i] + [dict(op, kw={a: b for a, b in op["kw"].items() if a != k})] + ops[i + 1:])
        for k in list(op["opts"]):
            yield dict(plan, ops=ops[:i] + [dict(op, opts={a: b for a, b in op["opts"].items() if a != k})] + ops[i + 1:])
        for k in ("fault", "lay"):
            if op.get(k):
                yield dict(plan, ops=ops[:i] + [dict({a: b for a, b in op.items() if a != "fault"} if k == "fault" else dict(op, lay={}))] + ops[i + 1:])
