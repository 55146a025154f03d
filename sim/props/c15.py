"""C15: a long-running process accumulates nothing."""
import copy
import ctypes
import gc
import hashlib
import json
import pickle
import sys

import numpy as np

from .. import exe, faults, gen, seq, spec
from ..forks import in_fork
from ..watch import Watch
from ..vals import attempt, realize

KIND = "lean"
QUICK, THOROUGH = 1800, 30000
NEED = ["rounds"]
RULE = ("one seed = a loop body of 2-7 operations (constructions, assignments, evaluations, function and kernel calls, copies, pickles, rejected values, calls interrupted or failing to allocate at a "
        "chosen point) on new and on long-lived objects, run for some hundred rounds in one process with values that differ from round to round; after a warm-up the memory in use (C heap, interpreter "
        "blocks) is measured in windows: a rise of at least one block per round in every window is accumulation; the function calls made by one round replayed early and late are compared; "
        "non-trivial = the loop ran")
STUB = ["caller loop and faults: simulator"]
WARM, WINDOW, NWIN = 200, 250, 3


class MallInfo(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]


def make(seed, tier="quick"):
    k = seed % (len(spec.CLASSES) + 8)
    cls = spec.CLASSES[k] if k < len(spec.CLASSES) else None
    g = gen.Gen(seed, [cls] if cls else None)
    rng = g.rng
    g.pbuf = 0.0
    old = spec.npoints
    spec.npoints = lambda r: r.choice([1, 2, 3, 4])
    try:
        o = g.new(full=rng.choice([0.5, 1.0]))
        if cls is not None and rng.random() < 0.5:
            g.call(o, keep=0)
        pre, g.ops = g.ops, []
        for _ in range(rng.randint(1, 5)):
            k = rng.random()
            f = g.fault(["int", "int", "alloc"]) if rng.random() < 0.25 else None
            if cls is None and k < 0.15:
                fn = spec.FN_BY_NAME[rng.choice(["kernels.rTE_forward", "kernels.rTE_gradient"])]
                a, kw = fn.gen(rng)
                g.ops.append({"op": "fn", "f": fn.name, "args": a, "kw": kw})
                if rng.random() < 0.6:
                    g.ops[-1]["fault"] = g.fault(["new", "new", "alloc"])
            elif cls is None and k < 0.6:
                g.fn(again=0.0, keep=0, fault=f)
            elif k < 0.2:
                n = g.new(full=rng.choice([0.3, 0.8]))
                g.call(n, keep=0, fault=f)
                g.delete(n)
            elif k < 0.55:
                g.call(o, again=0.2, keep=0, fault=f)
            elif k < 0.7:
                g.set(o, fault=f)
                if rng.random() < 0.5:
                    g.call(o, keep=0)
            elif k < 0.76:
                g.bad_set(o)
            elif k < 0.82:
                g.bad_new()
            else:                          # no calls with unusable arguments: numpy itself leaks on some of them (np.dot of a string)
                n = "y%d" % len(g.ops)
                g.ops.append({"op": "cp", "obj": o, "new": n, "how": rng.choice(["copy", "deepcopy", "pickle"]), "proto": rng.choice([0, 2, 5])})
                g.ops.append({"op": "del", "obj": n})
    finally:
        spec.npoints = old
    return {"prop": "C15", "seed": seed, "pre": pre, "ops": g.ops, "cfg": {}, "same": rng.random() < 0.15, "rounds": [WARM, WINDOW, NWIN]}


# ---------------------------------------------------------------- one process
def scaled(v, f):
    if isinstance(v, float):
        return v * f
    if isinstance(v, np.ndarray) and v.dtype.kind in "fc" and v.size:
        w = v.copy(order="K")
        w.flags.writeable = True
        w *= w.dtype.type(f)
        return w
    if isinstance(v, (list, tuple)):
        return type(v)(scaled(x, f) for x in v)
    return v


class Loop:
    def __init__(self, plan):
        self.plan = plan
        self.objs = {}
        self.at = {}
        self.fired = {}

    def value(self, d, f):
        return scaled(realize(d), f)

    def one(self, ops, f):
        """One round: every value of the round is multiplied by the same factor."""
        for i, op in enumerate(ops):
            k = op["op"]
            if k == "new":
                C = spec.BY_NAME[op["cls"]].resolve()
                kw = {p: self.value(d, f) for p, d in op["kw"].items()}
                r = attempt(lambda: C(**kw))
                if r[0]:
                    self.objs[op["obj"]] = r[1]
            elif k == "fn":
                fn = spec.FN_BY_NAME[op["f"]].resolve()
                args, kw = [self.value(a, f) for a in op["args"]], {a: self.value(b, f) for a, b in op["kw"].items()}
                self.run(i, op, lambda: fn(*args, **kw))
            elif k == "del":
                self.objs.pop(op["obj"], None)
            elif k in ("set", "call", "get", "cp"):
                o = self.objs.get(op["obj"])
                if o is None:
                    continue
                if k == "set":
                    v = self.value(op["v"], f)
                    self.run(i, op, lambda: setattr(o, op["p"], v))
                elif k == "get":
                    self.run(i, op, lambda: getattr(o, op["m"]))
                elif k == "call":
                    args, kw = [self.value(a, f) for a in op["args"]], {a: self.value(b, f) for a, b in op["kw"].items()}
                    self.run(i, op, lambda: getattr(o, op["m"])(*args, **kw))
                else:
                    def cp():
                        if op["how"] == "pickle":
                            return pickle.loads(pickle.dumps(o, protocol=op["proto"]))
                        return copy.copy(o) if op["how"] == "copy" else copy.deepcopy(o)
                    r = attempt(cp)
                    if r[0]:
                        self.objs[op["new"]] = r[1]

    def run(self, i, op, fn):
        f = op.get("fault")
        if not f:
            attempt(fn)
            return
        if f.get("at") is not None:
            at = f["at"]
        elif i in self.at:
            at = self.at[i]
        else:
            at = self.at[i] = faults.place(f, fn, lambda: Watch(self.objs.values(), ()))
        with faults.make(f, at) as c:
            attempt(fn)
        if c.result()[1]:
            self.fired[f["kind"]] = self.fired.get(f["kind"], 0) + 1


def session(plan):
    libc = ctypes.CDLL(None)
    libc.mallinfo2.restype = MallInfo
    warm, window, nwin = plan["rounds"]
    lp = Loop(plan)
    sys.modules["simalloc"].install()
    lp.one(plan["pre"], 1.0)
    body = plan["ops"]
    gc.collect()
    gc.freeze()
    marks = [None] * (nwin + 1)
    work = {}
    n = 0

    def count(f):
        c = {}

        def prof(frame, event, arg):
            if event in ("call", "c_call"):
                c[0] = c.get(0, 0) + 1
        sys.setprofile(prof)
        lp.one([dict(op, fault=None) for op in body], f)
        sys.setprofile(None)
        return c.get(0, 0)
    for r in range(warm + nwin * window + 1):
        lp.one(body, 1.0 if plan["same"] else 1.0 - 2e-5 * r)
        if r == 20:
            count(0.997)
            work["early"] = count(0.997)
        if r >= warm and (r - warm) % window == 0:
            gc.collect()
            m = libc.mallinfo2()
            marks[(r - warm) // window] = (m.uordblks + m.hblkhd, sys.getallocatedblocks())
        n += 1
    count(0.997)
    work["late"] = count(0.997)
    return {"marks": marks, "work": work, "rounds": n, "fired": lp.fired, "at": lp.at}


def run(plan):
    r = in_fork(lambda: session(plan), 120)
    nops = len(plan["ops"])
    if r[0] != "ok":
        if seq.crashed(r):
            return seq.Result([{"kind": "process-died", "where": "loop", "op": -1, "detail": "the process ended with %s" % r[1]}], {}, "died", nops, resolved=plan)
        return seq.Result(note="%s: %s" % r)
    h = r[1]
    warm, window, nwin = plan["rounds"]
    st = {"rounds": h["rounds"], "operations": h["rounds"] * nops}
    for k, v in h["fired"].items():
        st["fault.%s.fired" % k] = v
    viol = []
    body = ", ".join(sorted({op.get("f") or op.get("cls") or op.get("m") or op.get("p") or op["op"] for op in plan["ops"] if op["op"] != "del"}))
    for j, (what, unit) in enumerate((("the C heap", 16), ("the interpreter", 1))):
        d = [b[j] - a[j] for a, b in zip(h["marks"], h["marks"][1:])]
        if min(d) >= unit * window:
            viol.append({"kind": "memory-accumulates", "where": "loop", "op": -1,
                         "detail": "%s grew by %s %s in successive windows of %d rounds of: %s" % (what, d, "bytes" if j == 0 else "blocks", window, body)})
            break
    a, b = h["work"]["early"], h["work"]["late"]
    if not viol and b > 1.5 * a + 50:
        viol.append({"kind": "work-accumulates", "where": "loop", "op": -1, "detail": "the same round made %d calls after 20 rounds and %d after %d: %s" % (a, b, h["rounds"], body)})
    st["memory windows compared"] = 2 * nwin
    st["rounds replayed early and late"] = 1
    sig = hashlib.sha1(repr([(op["op"], op.get("cls") or op.get("f") or op.get("m") or op.get("p"), (op.get("fault") or {}).get("kind")) for op in plan["ops"]] + [sorted(h["at"].items())]).encode()).hexdigest()[:16]
    p2 = None
    if viol:
        p2 = json.loads(json.dumps(plan))
        for i, at in h["at"].items():
            p2["ops"][i]["fault"]["at"] = at
    return seq.Result(viol, st, sig, h["rounds"] * nops, resolved=p2)


shrink = seq.shrink_candidates
