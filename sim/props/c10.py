"""C10: splitting a survey over workers gives the one-shot result."""
import copy
import hashlib
import heapq
import json
import pickle
import random
import sys

import numpy as np

from .. import faults, gen, oracle, seq, spec
from ..forks import in_fork
from ..vals import attempt, ending, layout, realize, magnitude, within_conditioning, brief

KIND = "lean"
QUICK, THOROUGH = 12000, 240000
NEED = ["chunk results compared with the one-shot result"]
RULE = ("one seed = one survey (a source of one class, or one array function, with 4-260 points and 1-70 frequencies or times, including points on the source, on its axis, edges and boundaries) and one simulated "
        "run of a coordinator and 1-4 workers: the survey is cut into (overlapping, permuted, interleaved) chunks of points and/or samples, messages are delayed, reordered, lost and duplicated, "
        "workers stall, crash and restart from the pickled source, tasks time out and are retried, attempts are interrupted or run out of memory; every worker incarnation is a separate process that runs its "
        "tasks in order on its own copy of the source; every result that any worker produced, and the reassembled survey, are compared with one evaluation of everything in a pristine process; "
        "non-trivial = at least one chunk result compared")
STUB = ["network between coordinator and workers, clock, worker crashes: discrete-event simulator", "worker process: forked process that shares nothing but the pickled source"]
TOL = 1e-9

# array functions: name -> [(name of the split, [(argument, axis)])]
ROWS = lambda *a: [("rows", [(i, 0) for i in a])]                                     # noqa: E731
FNS = {"spatial." + n: ROWS(0, 1) for n in ("cylindrical_to_cartesian", "cartesian_to_cylindrical", "spherical_to_cartesian", "cartesian_to_spherical",
                                            "cylindrical_2_cartesian", "cartesian_2_cylindrical", "spherical_2_cartesian", "cartesian_2_spherical")}
FNS.update({"spatial." + n: ROWS(0) for n in ("vector_magnitude", "vector_distance", "distance", "vector_dot", "repeat_scalar", "rotate_points_from_normals")})
FNS.update({"kernels." + n: [("frequencies", [(0, 0), (2, 1), (3, 1)]), ("wavenumbers", [(1, 0)])] for n in ("rTE_forward", "rTE_gradient")})
FNS.update({"em.fdem." + n: ROWS(0) for n in ("omega",)})
FNS.update({"em.fdem." + n: ROWS(0, 1) for n in ("wavenumber", "skin_depth", "sigma_hat")})
FNS.update({"em.tdem." + n: ROWS(0) for n in ("peak_time", "diffusion_distance", "theta")})
FNS.update({"kernels.prism_" + n: ROWS(0, 1, 2) for n in ("f", "fz", "fzz", "fzx", "fzy", "fzzz", "fxxy", "fxxz", "fxyz")})
FNS.update({"em.fdem.simple_functions." + n: ROWS(0) for n in ("vertical_magnetic_field_horizontal_loop", "vertical_magnetic_flux_horizontal_loop")})
FNS.update({"em.tdem.simple_functions.vertical_magnetic_%s_horizontal_loop" % n: ROWS(0) for n in ("field", "flux", "field_time_deriv", "flux_time_deriv")})
FNS.update({"em.tdem.simple_functions." + n: [("times", [(0, 0)]), ("rows", [(1, 0)])] for n in ("magnetic_field_vertical_magnetic_dipole", "magnetic_field_time_deriv_magnetic_dipole",
                                                                                           "magnetic_flux_vertical_magnetic_dipole", "magnetic_flux_time_deriv_magnetic_dipole")})
SIZES = [4, 5, 7, 7, 11, 11, 13, 17]
BIG = [37, 65, 101, 130, 257]
HUGE = [1025, 2001, 2049, 4096, 4097, 5000] + [8193] * 4 + [10001] * 4 + [8192, 8192, 10000, 10000, 20003, 65537]      # multiples of the block sizes people use, and one more
SAMPLED = {"frequency": [1, 1, 2, 5, 9, 33], "time": [1, 1, 2, 5, 9, 33]}


PAIRS = [(c, m) for c in spec.CLASSES if not c.name.startswith("earthquake") for m in c.methods if m.args and m.args[0][0] in ("xyz", "xy")]


# ---------------------------------------------------------------- what is evaluated
def survey(g):
    """The task as a whole: object construction and call, or function and arguments; and how it may be cut."""
    rng = g.rng
    if rng.random() < 0.25:
        name = rng.choice(sorted(FNS))
        f = spec.FN_BY_NAME[name]
        old = spec.npoints
        n = rng.choice(SIZES + BIG) if rng.random() < 0.96 else rng.choice(HUGE[:16])
        spec.npoints = lambda r: n
        try:
            args, kw = f.gen(rng)
            while args[0]["t"] not in ("arr", "carr"):
                args, kw = f.gen(rng)
        finally:
            spec.npoints = old
        how, axes = rng.choice(FNS[name])
        if name.startswith(("kernels", "em.")):
            m = n if rng.random() < 0.3 else rng.choice(SIZES)
            if rng.random() < 0.05:
                m = rng.choice(HUGE[:4] if "rTE" in name else HUGE)
            args = [_longer(rng, a, dict(axes).get(i), m) for i, a in enumerate(args)]
        if name.startswith("kernels.prism"):
            for a in args:
                for i in range(len(a["v"])):
                    if rng.random() < 0.15:
                        a["v"][i] = rng.choice([0.0, 0.0, -1.0, 2.0])
        axes = [(i, ax) for i, ax in axes if i < len(args) and args[i]["t"] in ("arr", "carr")]
        size = np.shape(realize(args[axes[0][0]]))[axes[0][1]]
        return {"fn": name, "args": args, "kw": kw, "cuts": {"arg": axes}, "n": int(size), "s": 0}
    cls, m = PAIRS[g.seed % len(PAIRS)]
    kw, vals = {}, {}
    names = list(cls.ctor) if cls.ctor else list(cls.params)
    smp = [p for p in ("frequency", "time") if p in cls.params]
    ns = rng.choice(SAMPLED["time"]) if smp else 0
    n = rng.choice(SIZES * 3 + BIG)
    if rng.random() < 0.11:               # sizes at which code may start to work in blocks
        if smp and rng.random() < 0.3:
            ns = rng.choice([101, 130, 257, 513, 1001, 1025])
        else:
            n = rng.choice(HUGE)
            ns = min(ns, 2 if n > 5000 else 5)
        if cls.groups:
            n, ns = min(n, 2049 if ns < 9 else 7), min(ns, 130)
    elif cls.groups:
        n = rng.choice(SIZES)
        ns = min(ns, 9)
    while n in (3, ns):
        n += 1
    for p in names:
        if not (p in cls.required or rng.random() < 0.7):
            continue
        st = g._partial(cls, vals)
        if p in smp:
            d = spec.A([spec.rnd3(10 ** rng.uniform(-1, 5)) if p == "frequency" else spec.rnd3(10 ** rng.uniform(-6, -1)) for _ in range(ns)])
            if rng.random() < 0.2 and ns > 1 and p == "time":
                d["v"][rng.randrange(ns)] = d["v"][rng.randrange(ns)]
        elif cls.groups and p in ("sigma", "mu", "epsilon"):
            d = spec.A([spec.kind_of(cls, p).one(rng) for _ in range(len(st["thickness"]) + 1)])
        else:
            d = spec.kind_of(cls, p).valid(rng, st)
        kw[p] = d
        vals[p] = realize(d)
    st = spec.state_after_ctor(cls, vals)
    args = []
    spread = rng.random() < 0.3
    for a in m.args:
        if a[0] == "xyz":
            z, dim = a[1], 3
        elif a[0] == "samexyz":
            z, dim = a[1], 3
        else:
            z, dim = None, 2
        few = min(n, 300)
        points = spread_points(rng, st, few, z, dim) if spread else spec.special_points(rng, st, few, z, dim)
        if rng.random() < 0.3:
            close_by(rng, points, z)
        if n > few:
            points = more_points(rng, points, n, z)
        args.append(spec.A(points, "C", rng.choice(["f8"] * 8 + ["f4"]) if a[0] == "xyz" else "f8"))
    _, okw = spec.draw_args(rng, m)
    forms = ["n3"]
    if m.args[0][0] == "xyz":
        forms = ["n3"] * 3 + [f for f in m.args[0][2].get("forms", ("n3", "3", "grid", "tuple", "list")) if f in ("3", "grid", "tuple", "list")]
    if len(m.args) > 1:
        forms = ["n3"]
    return {"cls": cls.name, "ctor": kw, "m": m.name, "args": args, "kw": okw, "cuts": {"pts": [(i, 0) for i in range(len(args))]}, "n": n, "s": ns, "smp": smp[0] if smp else None, "forms": forms,
            "squeeze": bool(cls.groups) or cls.name == "em.fdem.MagneticDipoleHalfSpace"}


def close_by(rng, points, z):
    """Make some points near neighbours of others."""
    s = rng.choice([1e-2, 1e-3, 1e-4, 1e-5, 1e-7])
    for i in range(1, len(points)):
        if rng.random() < 0.35:
            q = list(points[i - 1] if rng.random() < 0.7 else rng.choice(points))
            for j in rng.sample(range(len(q)), rng.choice([1, 1, len(q)])):
                q[j] += s * rng.uniform(-1, 1)
            points[i] = spec._side(q, z) if len(q) == 3 else q


def more_points(rng, points, n, z):
    """The given points among many others."""
    r = np.random.RandomState(rng.getrandbits(32))
    base = np.array(points)
    x = base[r.randint(len(base), size=n)] * (1 + 0.2 * r.uniform(-1, 1, size=(n, 1))) + r.uniform(-1, 1, size=(n, base.shape[1]))
    x[r.choice(n, len(base), replace=False)] = base
    if z is not None:
        x[:, 2] = np.abs(x[:, 2]) * (-1 if z == "<=0" else 1)
    return x.tolist()


def spread_points(rng, st, n, z, dim):
    """Distances from the source over many orders of magnitude, in random order or sorted, so that a cut can separate near from far."""
    c = st.get("location", st.get("location_a", np.zeros(3)))
    c = np.zeros(3) if not isinstance(c, np.ndarray) or c.shape != (3,) else c
    lo, hi = rng.choice([(-3, 5), (-1, 4), (-2, 1), (2, 5)])
    out = []
    for _ in range(n):
        d = np.array([rng.gauss(0, 1) for _ in range(3)])
        p = (c + 10 ** rng.uniform(lo, hi) * d / np.linalg.norm(d)).tolist()
        out.append(spec._side([spec.rnd3(x) for x in p], z)[:dim])
    if rng.random() < 0.5:
        out.sort(key=lambda q: sum((x - y) ** 2 for x, y in zip(q, c)))
    return out


def _longer(rng, a, axis, m):
    """The argument with axis made m long."""
    if axis is None or a["t"] not in ("arr", "carr"):
        return a
    def f(v):
        x = np.array(v)
        idx = [rng.randrange(x.shape[axis]) for _ in range(m)] if x.shape[axis] else []
        return np.take(x, idx, axis=axis)
    if a["t"] == "carr":
        st = rng.getstate()
        re = f(a["re"])
        rng.setstate(st)
        im = f(a["im"])
        w = np.array([rng.uniform(0.5, 2.0) for _ in range(m)]).reshape([m if i == axis else 1 for i in range(re.ndim)])
        return dict(a, re=np.round(re * w, 12).tolist(), im=np.round(im * w, 12).tolist())
    x = f(a["v"])
    w = np.array([rng.uniform(0.5, 2.0) for _ in range(m)]).reshape([m if i == axis else 1 for i in range(x.ndim)])
    x = x * w if x.dtype.kind == "f" else x
    return dict(a, v=x.tolist())


# ---------------------------------------------------------------- the simulated run
def cut(rng, n):
    """Index lists that together cover range(n); may overlap, repeat and be in any order."""
    order = list(range(n))
    k = rng.random()
    if k < 0.4:
        rng.shuffle(order)
    elif k < 0.5:
        order.reverse()
    elif k < 0.6:
        st = rng.choice([2, 3])
        order = [i for o in range(st) for i in order[o::st]]
    if rng.random() < 0.25 and n <= 17:
        cuts = list(range(1, n))
    else:
        cuts = sorted(rng.sample(range(1, n), min(n - 1, rng.choice([1, 1, 2, 3, 5])))) if n > 1 else []
    out = [order[a:b] for a, b in zip([0] + cuts, cuts + [n])]
    if n > 300:                           # a few from anywhere, the last ones, and some around a round number
        out.append([rng.randrange(n) for _ in range(9)])
        out.append(list(range(n - rng.choice([1, 2, 5]), n)))
        b = rng.choice([b for b in (100, 128, 256, 500, 512, 1000, 1024, 2000, 2048, 4096, 5000, 8192, 10000, 16384, 65536) if b < n])
        out.append([i for i in range(b - 2, b + 3) if i < n])
    if rng.random() < 0.3:
        out.append([rng.randrange(n) for _ in range(rng.randint(1, min(n, 8)))])
    return out


def make(seed, tier="quick"):
    g = gen.Gen(seed)
    rng = g.rng
    sv = survey(g)
    chunks = []
    cp = cut(rng, sv["n"]) if sv["n"] > 1 and (sv["s"] < 2 or rng.random() < 0.7) else [list(range(sv["n"]))]
    cs = cut(rng, sv["s"]) if sv["s"] > 1 and (len(cp) == 1 or rng.random() < 0.5) else [None]
    for p in cp:
        for s in cs:
            form = rng.choice(sv.get("forms", ["n3"]))
            if form == "3" and len(p) > 1 or form == "grid" and len(p) < 2:
                form = "n3"
            if len(p) == 1 and "3" in sv.get("forms", []) and rng.random() < 0.5:
                form = "3"
            chunks.append({"pts": p, "smp": s, "form": form, "lay": rng.choice(spec.LAYS), "scalar": s is not None and len(s) == 1 and not sv.get("squeeze") and rng.random() < 0.5})
    if len(chunks) > 24:
        chunks = rng.sample(chunks, 24)
    w, log = simulate(rng, len(chunks))
    return dict({"prop": "C10", "seed": seed, "survey": sv, "chunks": chunks}, **w, log=log)


def simulate(rng, nchunks):
    """Discrete-event run of coordinator, network and workers: who runs which attempt in which order, and whose answer counts."""
    nw = rng.choice([1, 2, 3, 4])
    loss, dup = rng.choice([(0, 0), (0.1, 0.1), (0.25, 0.2)])
    crash = rng.choice([0, 0, 0.05, 0.15])
    slow = rng.choice([0, 0, 0.2])
    fail = rng.choice([0, 0.1, 0.25])
    inc = []                              # {"worker", "proto", "copy", "tasks": [...], "crashed"}
    cur = {}
    log = {"lost": 0, "duplicated": 0, "retries": 0, "crashes": 0, "reordered": 0, "late or duplicate answers": 0, "stalls": 0}

    def boot_worker(k):
        inc.append({"worker": k, "proto": rng.choice([0, 1, 2, 3, 4, 5]), "own": rng.choice(["keep", "keep", "fresh", "deepcopy"]), "tasks": [], "crashed": False})
        cur[k] = len(inc) - 1
    q, t, seqno = [], 0.0, 0
    busy = {k: 0.0 for k in range(nw)}
    done, tries, gen_ = {}, {}, {k: 0 for k in range(nw)}
    for k in range(nw):
        boot_worker(k)

    def post(dt, ev):
        nonlocal seqno
        seqno += 1
        heapq.heappush(q, (t + dt, seqno, ev))

    def send(ev):
        if rng.random() < loss:
            log["lost"] += 1
            return
        post(rng.expovariate(1.0) + 0.05, ev)
        if rng.random() < dup:
            log["duplicated"] += 1
            post(rng.expovariate(0.3) + 0.05, ev)

    def dispatch(c):
        tries[c] = tries.get(c, 0) + 1
        if tries[c] > 1:
            log["retries"] += 1
        k = rng.randrange(nw)
        clean = tries[c] > 6              # faults stop: the run must then finish
        if clean:
            post(0.1, ("task", k, c, True))
        else:
            send(("task", k, c, False))
        post(4.0 + 4.0 * min(tries[c], 4), ("timeout", c, tries[c]))
    for c in rng.sample(range(nchunks), nchunks):
        dispatch(c)
    steps = 0
    last = -1
    while q and len(done) < nchunks and steps < 2000:
        steps += 1
        t, _, ev = heapq.heappop(q)
        if ev[0] == "task":
            _, k, c, clean = ev
            if c < last:
                log["reordered"] += 1
            last = c
            i = inc[cur[k]]
            task = {"chunk": c}
            if not clean and rng.random() < fail:
                task["fault"] = {"kind": rng.choice(["int", "alloc"]), "frac": round(rng.random(), 4)}
            if not clean and rng.random() < crash:
                i["crashed"] = True       # dies during this task: nothing of it survives
                log["crashes"] += 1
                gen_[k] += 1
                boot_worker(k)
                continue
            i["tasks"].append(task)
            took = rng.expovariate(2.0) + 0.05
            if rng.random() < slow and not clean:
                took += rng.uniform(5, 40)
                log["stalls"] += 1
            busy[k] = max(busy[k], t) + took
            post(busy[k] - t, ("finish", k, gen_[k], c, cur[k], len(i["tasks"]) - 1, "fault" in task, clean))
        elif ev[0] == "finish":
            _, k, ge, c, ii, ti, faulty, clean = ev
            ans = ("answer", c, ii, ti, faulty)
            if clean:
                post(0.1, ans)
            elif ge == gen_[k]:
                send(ans)
        elif ev[0] == "answer":
            _, c, ii, ti, faulty = ev
            if c in done:
                log["late or duplicate answers"] += 1
            else:
                done[c] = [ii, ti]
                if faulty:                # the coordinator does not know yet whether it failed; see run()
                    pass
        elif ev[0] == "timeout":
            _, c, n = ev
            if c not in done and tries[c] == n:
                dispatch(c)
    log["simulated seconds"] = int(t)
    return {"inc": [i for i in inc], "accept": sorted([c] + v for c, v in done.items())}, log


# ---------------------------------------------------------------- execution
def form_args(sv, ch):
    """The arguments of one chunk, in the form the plan asks for."""
    full = [realize(a) for a in sv["args"]]
    args = list(full)
    cuts = sv["cuts"].get("pts") or sv["cuts"].get("arg")
    for i, ax in cuts:
        v = np.take(full[i], ch["pts"], axis=ax)
        f = ch["form"]
        if f == "3":
            v = v[0]
        elif f == "grid":
            k = len(ch["pts"])
            r = next(r for r in (2, 3, 5, 7, 1) if k % r == 0)
            v = v.reshape((r, k // r) + v.shape[1:])
        if f == "tuple":
            args[i] = tuple(np.array(v[..., j]) for j in range(v.shape[-1]))
        elif f == "list":
            args[i] = v.tolist()
        else:
            args[i] = layout(v, ch["lay"])
    return args


def evaluate(sv, obj, args, smp=None):
    kw = {k: realize(v) for k, v in sv["kw"].items()}
    if obj is None:
        return spec.FN_BY_NAME[sv["fn"]].resolve()(*args, **kw)
    if smp is not None:
        setattr(obj, sv["smp"], smp)
    return getattr(obj, sv["m"])(*args, **kw)


def source(sv, jig=None):
    if "fn" in sv:
        return None
    kw = {k: realize(v) for k, v in sv["ctor"].items()}
    if jig is not None:
        kw = {k: oracle.jiggle(v, jig) for k, v in kw.items()}
    return spec.BY_NAME[sv["cls"]].resolve()(**kw)


def one_shot(sv, jig=None):
    rng = None if jig is None else np.random.RandomState(jig)
    o = source(sv, rng)
    args = [realize(a) for a in sv["args"]]
    if rng is not None:
        args = [oracle.jiggle(a, rng) for a in args]
    return ending(attempt(lambda: evaluate(sv, o, args)))[0]


def floor(sv, one):
    """Rounding level of a result that is the difference of two others (secondary = total - primary): set by the largest of the three."""
    m = magnitude(one)
    if "cls" in sv and sv["kw"].get("field") is not None:
        r = in_fork(lambda: one_shot(dict(sv, kw=dict(sv["kw"], field={"t": "s", "v": "all"}))), 60)
        if r[0] == "ok" and r[1][0] == "ok":
            m = max(m, magnitude(r[1][1]))
    return 1e-13 * m if one[0] == "t" or sv["kw"].get("field") is not None else 0.0


def work(plan, inc, data):
    """One incarnation of a worker: its own copy of the source, its tasks in order."""
    sv = plan["survey"]
    sys.modules["simalloc"].install()
    obj = pickle.loads(data) if data is not None else None
    smp = np.array(getattr(obj, sv["smp"])) if data is not None and sv["smp"] else None
    out = []
    for task in inc["tasks"]:
        ch = plan["chunks"][task["chunk"]]
        args = form_args(sv, ch)
        o = obj
        if obj is not None and inc["own"] == "fresh":
            o = pickle.loads(data)
        elif obj is not None and inc["own"] == "deepcopy":
            o = copy.deepcopy(obj)
        s = None
        if smp is not None:
            s = smp if ch["smp"] is None else smp[ch["smp"]]
            if ch["scalar"]:
                s = float(s[0])
            else:
                s = np.array(s)
        fn = lambda: evaluate(sv, o, args, s)                       # noqa: E731
        f = task.get("fault")
        rec = {}
        if f:
            at = faults.place(f, fn)
            with faults.make(f, at or 0) as c:
                r = attempt(fn)
            rec = {"fired": bool(c.result()[1]), "at": at, "kind": f["kind"]}
        else:
            r = attempt(fn)
        rec["out"] = ending(r)[0]
        out.append(rec)
    return out


def expected(sv, ch, one):
    """The part of the one-shot value that the chunk must give; None if the value has no such axis."""
    if one[0] == "t":
        parts = [expected(sv, ch, x) for x in one[2]]
        return None if any(p is None for p in parts) else ("t", one[1], tuple(parts))
    if one[0] != "a":
        return None
    a = one[4]
    n = sv["n"]
    ax = [i for i, m in enumerate(a.shape) if m == n]
    if len(ax) != 1:
        return None
    k = len(ch["pts"])
    b = np.take(a, ch["pts"], axis=ax[0])
    if ch["smp"] is not None:
        sx = [i for i, m in enumerate(a.shape) if m == sv["s"] and i != ax[0]]
        if sv["s"] == 3 or len(sx) != 1:
            return None
        b = np.take(b, ch["smp"], axis=sx[0])
    return ("a", one[1], one[2], b.shape, b)


def fit(got, want):
    """The chunk's value with the axes of length one that the form of the arguments adds or removes put right; None if impossible."""
    if got[0] != want[0]:
        return None
    if got[0] == "t":
        if len(got[2]) != len(want[2]):
            return None
        parts = [fit(x, y) for x, y in zip(got[2], want[2])]
        return None if any(p is None for p in parts) else ("t", want[1], tuple(parts))
    if got[0] != "a" or np.dtype(got[2]).kind != np.dtype(want[2]).kind:
        return None
    if got[4].size != want[4].size:
        return None
    return ("a", want[1], want[2], want[3], got[4].reshape(want[3]))


def strict(x, y, tol):
    """Element by element, without regard to the size of the other elements."""
    if x[0] == "t":
        return all(strict(p, q, tol) for p, q in zip(x[2], y[2]))
    a, b = x[4], y[4]
    if a.dtype == b.dtype and a.tobytes() == b.tobytes():
        return True
    with np.errstate(all="ignore"):
        fa, fb = np.isfinite(a), np.isfinite(b)
        if (fa != fb).any():
            return False
        if a.dtype.kind == "f" and ((np.isnan(a) != np.isnan(b)).any() or (np.isinf(a) & (a != b)).any()):
            return False
        d = np.abs(a - b)[fa]
        return bool((d <= tol * np.maximum(np.abs(a), np.abs(b))[fa] + 1e-300).all())


def shape_wanted(sv, ch, one):
    """Shape of the chunk's result: that of the one-shot result with the lengths of the cut axes changed; None if not settled."""
    if sv.get("squeeze"):
        return None
    if one[0] == "t":
        parts = [shape_wanted(sv, ch, x) for x in one[2]]
        return None if any(p is None for p in parts) else tuple(parts)
    out = []
    for m in one[3]:
        if m == sv["n"]:
            k = len(ch["pts"])
            if ch["form"] == "grid":
                r = next(r for r in (2, 3, 5, 7, 1) if k % r == 0)
                out += [r, k // r]
            elif ch["form"] != "3":
                out.append(k)
        elif m == sv["s"] and ch["smp"] is not None:
            if not ch["scalar"]:
                out.append(len(ch["smp"]))
        else:
            out.append(m)
    return tuple(out)


def shape_got(x):
    return tuple(shape_got(y) for y in x[2]) if x[0] == "t" else tuple(x[3])


def run(plan):
    sv = plan["survey"]
    where = sv.get("fn") or "%s.%s" % (sv["cls"], sv["m"])
    steps = sum(len(i["tasks"]) for i in plan["inc"]) + 1
    st, viol = {}, []

    def count(k, n=1):
        st[k] = st.get(k, 0) + n
    r = in_fork(lambda: one_shot(sv), 60)
    if r[0] != "ok":
        if seq.crashed(r):
            return seq.Result([{"kind": "process-died", "where": where, "op": -1, "detail": "one-shot evaluation: the process ended with %s" % r[1]}], {}, "died", steps, resolved=plan)
        return seq.Result(note="%s: %s" % r)
    one = r[1]
    if one[0] == "err":
        return seq.Result(stats={"one-shot evaluation rejected": 1}, sig="rejected", steps=steps)
    for k, v in plan["log"].items():
        if v and k in ("lost", "duplicated", "crashes", "reordered", "stalls"):
            st["fault.%s.fired" % {"lost": "message lost", "duplicated": "message duplicated", "crashes": "worker crash", "reordered": "message reordered", "stalls": "worker stalled"}[k]] = v
        elif v:
            count(k, v)
    data = pickle.dumps(source(sv), protocol=4) if "cls" in sv else None
    results, sig, var = {}, [where], None
    for ii, inc in enumerate(plan["inc"]):
        if not inc["tasks"]:
            continue
        if data is not None:
            data = pickle.dumps(source(sv), protocol=inc["proto"])
        r = in_fork(lambda: work(plan, inc, data), 60)
        if r[0] != "ok":
            if seq.crashed(r):
                viol.append({"kind": "process-died", "where": where, "op": -1, "detail": "worker: the process ended with %s" % r[1]})
                break
            if r[1] == "exit 70":
                count("numpy itself crashed on the injected allocation failure")
                continue
            return seq.Result(note="%s: %s" % r)
        for ti, (task, rec) in enumerate(zip(inc["tasks"], r[1])):
            out = rec["out"]
            ch = plan["chunks"][task["chunk"]]
            sig.append((task["chunk"], ii, out[0], rec.get("fired")))
            if "fault" in task:
                count("fault.%s.%s" % (rec["kind"], "fired" if rec["fired"] else "not reached"))
                task["fault"]["at"] = rec["at"]
                if out[0] == "err":
                    count("attempts failed by a fault")
                    continue
            about = "worker %d, task %d: %d of %d points%s as %s" % (inc["worker"], ti, len(ch["pts"]), sv["n"], "" if ch["smp"] is None else " and %d of %d %ss" % (len(ch["smp"]), sv["s"], sv["smp"]), ch["form"])
            if out[0] == "err":
                viol.append({"kind": "chunk-fails", "where": where, "op": ti, "detail": "%s: %s; the one-shot evaluation succeeds" % (about, brief(out))})
                break
            want = expected(sv, ch, one[1])
            if want is None:
                count("results without a point axis")
                continue
            got = fit(out[1], want)
            sw = shape_wanted(sv, ch, one[1])
            if got is None or sw is not None and shape_got(out[1]) != sw:
                viol.append({"kind": "chunk-shape", "where": where, "op": ti, "detail": "%s: %s; expected part of the one-shot result %s" % (about, brief(out), brief(("ok", want)))})
                break
            results[(ii, ti)] = got
            count("chunk results compared with the one-shot result")
            if not strict(got, want, TOL):
                if var is None:
                    var = [r[1] for r in (in_fork(lambda k=k: one_shot(sv, k), 60) for k in range(8)) if r[0] == "ok"]
                    noise = floor(sv, one[1])
                vs = [("ok", expected(sv, ch, v[1])) for v in var if v[0] == "ok"]
                if within_conditioning(("ok", got), ("ok", want), [v for v in vs if v[1] is not None], noise):
                    count("chunk results compared up to the conditioning of the formula")
                    continue
                viol.append({"kind": "chunk-differs", "where": where, "op": ti, "detail": "%s: %s; the one-shot result there is %s" % (about, brief(("ok", got)), brief(("ok", want)))})
                break
        if viol:
            break
    if not viol:                          # every chunk must have got an answer once faults stopped
        acc = {a[0] for a in plan["accept"]}
        if len(acc) == len(plan["chunks"]):
            count("surveys reassembled")
    return seq.Result(viol, st, hashlib.sha1(repr(sig).encode()).hexdigest()[:16], steps, resolved=plan if viol else None)


def shrink(plan):
    P = lambda **k: dict(json.loads(json.dumps(plan)), **k)             # noqa: E731
    inc = plan["inc"]
    for i in range(len(inc)):
        if len(inc) > 1:
            yield P(inc=inc[:i] + inc[i + 1:])
    for i, w in enumerate(inc):
        n = len(w["tasks"])
        size = max(1, n // 2)
        while size >= 1 and n > 1:
            for s in range(0, n, size):
                yield P(inc=inc[:i] + [dict(w, tasks=w["tasks"][:s] + w["tasks"][s + size:])] + inc[i + 1:])
            size //= 2
        for j, t in enumerate(w["tasks"]):
            if "fault" in t:
                yield P(inc=inc[:i] + [dict(w, tasks=w["tasks"][:j] + [{"chunk": t["chunk"]}] + w["tasks"][j + 1:])] + inc[i + 1:])
    for i, c in enumerate(plan["chunks"]):
        if len(c["pts"]) > 1 and c["form"] != "grid":
            h = len(c["pts"]) // 2
            for p in (c["pts"][:h], c["pts"][h:]):
                yield P(chunks=plan["chunks"][:i] + [dict(c, pts=p)] + plan["chunks"][i + 1:])
        if c["lay"] != "C" or c["form"] != "n3":
            yield P(chunks=plan["chunks"][:i] + [dict(c, lay="C", form="n3")] + plan["chunks"][i + 1:])
    sv = plan["survey"]
    if "cls" in sv:
        for p in list(sv["ctor"]):
            if p != sv["smp"]:
                yield P(survey=dict(sv, ctor={k: v for k, v in sv["ctor"].items() if k != p}))
        used = sorted({i for c in plan["chunks"] for i in c["pts"]})
        n = sv["n"]
        for h in ([i for i in range(n) if i in used], list(range(n // 2)), list(range(n // 2, n))):
            k = len(h)
            if 4 <= k < n and k not in (3, sv["s"]) and set(used) <= set(h):
                pos = {x: y for y, x in enumerate(h)}
                yield P(survey=dict(sv, n=k, args=[dict(a, v=[a["v"][x] for x in h]) for a in sv["args"]]),
                        chunks=[dict(c, pts=[pos[x] for x in c["pts"]]) for c in plan["chunks"]])
