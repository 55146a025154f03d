"""C06: concurrent evaluation gives the sequential results."""
import hashlib

import numpy as np

from .. import gen, judge, seq, spec, threads
from ..forks import in_fork
from ..oracle import Oracle
from ..vals import same_value

KIND = "threads"
QUICK, THOROUGH = 12800, 200000
NEED = ["switches"]
RULE = ("one seed = 2-4 caller threads, each making 1-4 evaluations, function or kernel calls or constructions, on one shared object (every method and every module function in turn), on several objects of one class, or on kernels directly, with shared "
        "argument arrays, and one schedule: the simulator owns a baton and decides at every bytecode instruction of geoana's code and every basic block of the compiled kernels (outside the interpreter "
        "lock) who runs; every result is compared with the same call alone in a pristine process; non-trivial = at least one preemption happened; distinct = distinct (calls, preemption list)")
STUB = ["thread scheduler (baton), locks geoana would create", "callers"]
NATIVE = ["gravity.Prism", "em.static.MagneticPrism", gen.LAYERED]
KERNELS = ["kernels.rTE_forward", "kernels.rTE_gradient", "kernels.prism_f", "kernels.prism_fz", "kernels.prism_fzz", "kernels.prism_fzx", "kernels.prism_fzy", "kernels.prism_fzzz", "kernels.prism_fxxy",
           "kernels.prism_fxxz", "kernels.prism_fxyz"]


PAIRS = [(c, m) for c in spec.CLASSES for m in c.methods]
FNS = [f.name for f in spec.FUNCS + spec.HELPERS]


def duel(seed):
    """Every thread calls the same method, at different points, on one object or on objects that differ in one parameter; switches come often."""
    k = seed // 2 % (len(PAIRS) + len(FNS))
    if k >= len(PAIRS):
        return duel_fn(seed, FNS[k - len(PAIRS)])
    cls, m = PAIRS[k]
    g = gen.Gen(seed, [cls])
    rng = g.rng
    g.pbuf = 0.3
    objs = [g.new(full=rng.choice([0.5, 1.0]))]
    while rng.random() < 0.35 and len(objs) < 3:
        objs.append(g.clone_with_change(objs[0]))
    pre = g.ops
    nt = rng.choice([2, 2, 2, 3])
    tasks = []
    first = None
    for t in range(nt):
        g.ops = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            o = objs[t % len(objs)] if rng.random() < 0.7 else rng.choice(objs)
            if first and rng.random() < 0.6:          # same number of points elsewhere
                g.ops.append(dict(first, obj=o, args=[g.own(_moved(g, rng, a)) for a in first["args"]]))
            else:
                op = g.call(o, again=0, keep=0, of=m)
                first = first or op
        pre += [op for op in g.ops if op["op"] == "buf"]
        tasks.append([op for op in g.ops if op["op"] != "buf"])
    return {"prop": "C06", "seed": seed, "pre": pre, "tasks": tasks, "cfg": {},
            "sched": _sched(rng, nt)}


def duel_fn(seed, name):
    """The same for a module-level function."""
    g = gen.Gen(seed)
    rng = g.rng
    g.pbuf = 0.3
    pre, tasks, first = [], [], None
    nt = rng.choice([2, 2, 2, 3])
    for t in range(nt):
        g.ops = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            if first and rng.random() < 0.6:
                g.ops.append(dict(first, args=[g.own(_moved(g, rng, a)) for a in first["args"]]))
            else:
                op = g.fn(of=name, keep=0)
                first = first or op
        pre += [op for op in g.ops if op["op"] == "buf"]
        tasks.append([op for op in g.ops if op["op"] != "buf"])
    return {"prop": "C06", "seed": seed, "pre": pre, "tasks": tasks, "cfg": {},
            "sched": _sched(rng, nt)}


def _sched(rng, nt):
    s = {"seed": rng.randrange(1, 2 ** 31), "first": rng.randrange(nt)}
    k = rng.random()
    if k < 0.3:                      # right after any change of what the threads share: objects, caller arrays, module and class level
        return dict(s, mode=4, gap=rng.choice([1, 1, 1.4, 2, 4]), max=rng.choice([1, 2, 3, 8, 1000]))
    if k < 0.6:                     # right after a write to something that is not a local variable
        return dict(s, mode=3, gap=rng.choice([1, 1.4, 2, 4, 8]), max=rng.choice([1, 2, 3, 8]))
    if k < 0.7:                     # few switches, only where a thread has not been before, so that the others run far in between
        return dict(s, mode=2, gap=rng.choice([30, 80, 160, 300]), max=rng.choice([1, 1, 2, 3]))
    return dict(s, gap=rng.choice([2, 4, 8, 16, 30, 60]), max=rng.choice([2, 5, 1000, 1000, 1000]))


def _moved(g, rng, a):
    if isinstance(a, dict) and a.get("t") == "tuple":
        return dict(a, v=[_moved(g, rng, x) for x in a["v"]])
    v = g.val(a)
    if isinstance(v, np.ndarray) and v.dtype.kind == "f" and v.size:
        w = [float(x) * rng.uniform(0.4, 1.6) for x in v.flat]
        return {"t": "arr", "v": np.array(w).reshape(v.shape).tolist(), "dt": "f8" if v.dtype.itemsize == 8 else "f4"}
    return a


def make(seed, tier="quick"):
    if seed % 2:
        return duel(seed)
    seed //= 2
    plan = mixed(seed)
    plan["seed"] = seed * 2
    return plan


def mixed(seed):
    names = [c for c in spec.CLASSES]
    r = seed % (len(names) + 10)
    cls = names[r] if r < len(names) else spec.BY_NAME[NATIVE[r % 3]] if r % 2 else None
    g = gen.Gen(seed, [cls] if cls else None)
    rng = g.rng
    g.pbuf = 0.8
    objs = []
    mode = rng.choice(["shared", "shared", "several", "mixed"])
    if cls is None:
        cls = rng.choice(names)
        g.classes = [cls]
        mode = "kernels"
        # one kernel for everybody, taken in turn, or any mixture
        turn = KERNELS[:2] * 3 + KERNELS
        one = turn[seed // (len(names) + 10) % len(turn)] if rng.random() < 0.8 else None
    if mode != "kernels":
        o = g.new(full=rng.choice([0.5, 1.0]))
        objs.append(o)
        if mode != "shared":
            g.call(o, keep=0)
            objs.append(g.clone_with_change(o))
            if rng.random() < 0.5:
                objs.append(g.new(full=0.6))
        if rng.random() < 0.4:
            g.call(rng.choice(objs), keep=0)
    pre = g.ops
    nt = rng.choice([2, 2, 2, 3, 4])
    tasks = []
    for t in range(nt):
        ops = []
        for _ in range(rng.choice([1, 2, 2, 3, 4])):
            g.ops = []
            if mode == "kernels":
                _kernel(g, rng, one)
            else:
                k = rng.random()
                if k < 0.72:
                    g.call(rng.choice(objs), again=0.55, keep=0)
                elif k < 0.80:
                    n = g.new(full=rng.choice([0.3, 1.0]))
                    g.call(n, keep=0)
                    del g.objs[n]
                elif k < 0.84:
                    g.call(rng.choice(objs), bad=True, keep=0)
                elif k < 0.92:
                    g.fn(again=0.5, keep=0)
                else:
                    _kernel(g, rng)
            for op in g.ops:
                (pre if op["op"] == "buf" else ops).append(op)
        tasks.append(ops)
    return {"prop": "C06", "seed": seed, "pre": pre, "tasks": tasks, "cfg": {},
            "sched": _sched(rng, nt) if rng.random() < 0.4 else
            {"seed": rng.randrange(1, 2 ** 31), "gap": rng.choice([2, 5, 12, 30, 80, 200, 600, 2000]), "max": rng.choice([1, 2, 3, 5, 20, 1000, 1000]), "first": rng.randrange(nt)}}


def _kernel(g, rng, one=None):
    if one:
        f = spec.FN_BY_NAME[one]
    elif g.lastfn and rng.random() < 0.5:
        f = spec.FN_BY_NAME[g.lastfn[-1]["f"]]
    else:
        f = spec.FN_BY_NAME[rng.choice([k for k in KERNELS if k in spec.FN_BY_NAME])]
    a, kw = f.gen(rng)
    op = {"op": "fn", "f": f.name, "args": [g.own(x) for x in a], "kw": kw}
    g.ops.append(op)
    g.lastfn.append(op)


def run(plan):
    r = in_fork(lambda: threads.run(plan), 90)
    nops = sum(len(t) for t in plan["tasks"])
    if r[0] == "died":
        if seq.crashed(r):
            return seq.Result([{"kind": "process-died", "where": "concurrent evaluation", "op": -1, "detail": "the process ended with %s" % r[1]}], {}, "died", nops, resolved=plan)
        return seq.Result(note="died: %s" % r[1])
    if r[0] != "ok":
        return seq.Result(note="%s: %s" % (r[0], r[1]))
    h = r[1]
    if h["fails"]:
        return seq.Result(note="harness: " + h["fails"][0])
    # evaluations never change an object, so the order in which the tasks are judged does not matter
    ops = list(plan["pre"])
    recs = list(h["pre"])
    where = [("pre", i) for i in range(len(ops))]
    for t, (o, rr) in enumerate(zip(plan["tasks"], h["tasks"])):
        ops += o
        recs += rr
        where += [(t, i) for i in range(len(o))]
    for i, rec in enumerate(recs):
        rec["i"] = i
    j = judge.Judge({"ops": ops}, recs, Oracle(), ["eval"])
    viol = j.run()
    for v in viol:
        v["detail"] = "thread %s, call %d: %s" % (*where[v["op"]], v["detail"])
    if not viol:
        for o in h["before"]:
            for p, a in h["before"][o].items():
                b = h["after"][o][p]
                j.count("parameters compared afterwards")
                if not (a == b if a[0] in ("absent", "raises", "other", "v") else same_value(a, b)):
                    viol.append({"kind": "object-changed", "where": "%s.%s" % (j.cls[o].name, p), "op": -1, "detail": "%s.%s changed during evaluation" % (o, p)})
    st = j.stats
    st["switches"] = h["stat"][1]
    st["scheduling points"] = h["stat"][0]
    st["scheduling points inside kernels"] = h["stat"][2]
    st["switches inside kernels"] = h["stat"][3]
    st["waits for a lock"] = h["stat"][4]
    st["reference runs"] = j.oracle.queries
    sig = hashlib.sha1(repr((seq.signature({"ops": ops}, recs), h["switches"])).encode()).hexdigest()[:16]
    res = seq.Result(viol, st, sig, h["stat"][0])
    if viol:
        res.resolved = dict(plan, sched={"first": plan["sched"]["first"], "switches": [list(s) for s in h["switches"]]})
    return res


def shrink(plan):
    t = plan["tasks"]
    s = plan["sched"]
    if "switches" not in s:
        return
    for i in range(len(t)):                      # a whole task, renumbering the rest
        if len(t) > 2 or (len(t) > 1 and t[i]):
            yield dict(plan, tasks=t[:i] + [[]] + t[i + 1:])
    for i in range(len(t)):
        for j in range(len(t[i])):
            yield dict(plan, tasks=t[:i] + [t[i][:j] + t[i][j + 1:]] + t[i + 1:])
    sw = s["switches"]
    size = max(1, len(sw) // 2)
    while size >= 1 and sw:
        for a in range(0, len(sw), size):
            yield dict(plan, sched=dict(s, switches=sw[:a] + sw[a + size:]))
        if size == 1:
            break
        size //= 2
    for i in range(len(plan["pre"])):
        yield dict(plan, pre=plan["pre"][:i] + plan["pre"][i + 1:])
