"""Execute a sequential plan inside one (forked, pristine) process and record the history."""
import copy
import gc
import hashlib
import pickle

import numpy as np

from . import spec, faults, glob as globstate
from .watch import Watch
from .forks import in_fork
from .vals import realize, snap, fingerprint, norm_value, outcome, attempt, ending


def observe(cls, obj):
    """Every parameter and view of one object, as read through the public attributes."""
    d = {}
    for p in list(cls.params) + list(cls.views):
        try:
            d[p] = norm_value(getattr(obj, p))
        except AttributeError:
            d[p] = ("absent",)
        except Exception as e:
            d[p] = ("raises", type(e).__name__)
    return d


class Exec:
    def __init__(self, plan):
        self.plan = plan
        self.cfg = plan.get("cfg", {})
        self.bufs, self.objs, self.cls, self.held = {}, {}, {}, {}
        self.recs = []
        self.saved = {}          # durable storage: pickled sources

    def run(self):
        if self.cfg.get("alloc"):
            import sys
            sys.modules["simalloc"].install()
        gs = None
        if self.cfg.get("glob"):
            globstate.prepare(self.cfg["pre"])
            gs = globstate.take()
        for i, op in enumerate(self.plan["ops"]):
            rec = {"i": i}
            try:
                self.step(op, rec)
            except Missing:
                rec["skipped"] = True
            if self.cfg.get("obs") and op["op"] not in ("buf",):
                rec["obs"] = {o: observe(self.cls[o], x) for o, x in self.objs.items()}
            if self.cfg.get("held"):
                rec["held"] = {r: hashlib.sha1(pickle.dumps(norm_value(v), protocol=5)).hexdigest() for r, v in self.held.items()}
            if gs is not None and op["op"] not in ("buf", "mut", "scrib"):
                now = globstate.take()
                d = globstate.diff(gs, now)
                if d and "open files" in d:      # a file whose only holder is garbage is as good as closed
                    gc.collect()
                    now = globstate.take()
                    d = globstate.diff(gs, now)
                if d:
                    rec["glob"] = d
                    gs = now
            self.recs.append(rec)
            if op["op"] == "crash":
                break
        return self.recs

    # ------------------------------------------------------------
    def step(self, op, rec):
        k = op["op"]
        if k == "buf":
            self.bufs[op["id"]] = realize(op["v"])
        elif k == "new":
            cls = spec.BY_NAME[op["cls"]]
            kw = {p: self.real(d) for p, d in op["kw"].items()}
            rec["kw"] = snap(kw)
            C = cls.resolve()
            v = self.guard(op, rec, lambda: C(**kw), list(kw.values()), quiet=True)
            if v is not None:
                self.objs[op["obj"]], self.cls[op["obj"]] = v, cls
        elif k == "set":
            o = self.obj(op["obj"])
            v = self.real(op["v"])
            rec["val"] = snap(v)
            self.guard(op, rec, lambda: setattr(o, op["p"], v), [v])
        elif k == "call":
            o = self.obj(op["obj"])
            args = [self.real(a) for a in op["args"]]
            kw = {a: self.real(b) for a, b in op["kw"].items()}
            rec["args"], rec["kw"] = snap(args), snap(kw)
            v = self.guard(op, rec, lambda: getattr(o, op["m"])(*args, **kw), args + list(kw.values()))
            if "res" in op and v is not None:
                self.held[op["res"]] = v
        elif k == "get":
            o = self.obj(op["obj"])
            v = self.guard(op, rec, lambda: getattr(o, op["m"]), [])
            if "res" in op and v is not None and op["m"] not in self.cls[op["obj"]].params:
                self.held[op["res"]] = v
        elif k == "fn":
            f = spec.FN_BY_NAME[op["f"]].resolve()
            args = [self.real(a) for a in op["args"]]
            kw = {a: self.real(b) for a, b in op["kw"].items()}
            rec["args"], rec["kw"] = snap(args), snap(kw)
            v = self.guard(op, rec, lambda: f(*args, **kw), args + list(kw.values()))
            if "res" in op and v is not None:
                self.held[op["res"]] = v
        elif k == "mut":
            b = self.bufs.get(op["b"])
            if b is None:
                raise Missing
            if op["i"] is None:
                b *= op["f"]
            else:
                b.flat[op["i"]] = b.flat[op["i"]] * op["f"]
        elif k == "scrib":
            v = self.held.pop(op["r"], None)
            if v is None:
                raise Missing
            for a in (v if isinstance(v, tuple) else (v,)):
                if isinstance(a, np.ndarray) and a.flags.writeable and a.dtype.kind in "fc":
                    a[...] = op["v"]
                    rec["wrote"] = True
        elif k == "cp":
            o = self.obj(op["obj"])

            def do():
                if op["how"] == "copy":
                    return copy.copy(o)
                if op["how"] == "deepcopy":
                    return copy.deepcopy(o)
                return pickle.loads(pickle.dumps(o, protocol=op.get("proto", 4)))
            v = self.guard(op, rec, do, [], quiet=True)
            if v is not None:
                self.objs[op["new"]], self.cls[op["new"]] = v, self.cls[op["obj"]]
        elif k == "del":
            if op["obj"] not in self.objs:
                raise Missing
            del self.objs[op["obj"]], self.cls[op["obj"]]
        elif k == "save":
            o = self.obj(op["obj"])
            r = attempt(lambda: pickle.dumps(o, protocol=op["proto"]))
            rec["out"] = ("ok", ("v", "object", "bytes")) if r[0] else ending(r)[0]
            if r[0]:
                self.saved[op["id"]] = (self.cls[op["obj"]].name, r[1])
        elif k == "load":
            if op["id"] not in self.saved:
                raise Missing
            name, data = self.saved[op["id"]]
            r = attempt(lambda: pickle.loads(data))
            rec["out"] = ("ok", ("v", "object", name)) if r[0] else ending(r)[0]
            if r[0]:
                self.objs[op["new"]], self.cls[op["new"]] = r[1], spec.BY_NAME[name]
        elif k == "crash":
            pass
        elif k == "poke":
            o = self.obj(op["obj"])
            try:
                a = getattr(o, op["p"])
            except AttributeError:
                raise Missing
            if isinstance(a, np.ndarray) and a.dtype.kind in "fc" and a.flags.writeable and a.size:
                a *= op["f"]
                rec["wrote"] = True
                if op.get("judged"):
                    rec["read"] = norm_value(getattr(o, op["p"]))
        elif k == "gc":
            gc.collect()
        elif k == "obs":
            rec["obs"] = {o: observe(self.cls[o], x) for o, x in self.objs.items()}
        else:
            raise ValueError(k)

    def obj(self, o):
        if o not in self.objs:
            raise Missing
        return self.objs[o]

    def real(self, d):
        try:
            return realize(d, self.bufs)
        except KeyError:
            raise Missing

    def guard(self, op, rec, fn, owned, quiet=False):
        """Run fn, under op's fault if it has one, recording how it ended and what it did to what the caller owns."""
        pre = [fingerprint(x) for x in owned] if self.cfg.get("fp") else None
        prebuf = {b: fingerprint(x) for b, x in self.bufs.items()} if self.cfg.get("fp") else None
        f = op.get("fault")
        if f:
            at = faults.place(f, fn, lambda: Watch(self.objs.values(), list(self.bufs.values()) + list(owned), bool(self.cfg.get("glob"))))
            with faults.make(f, at or 0) as c:
                r = attempt(fn)
            out, v = ending(r)
            n, fired = c.result()
            rec["fault"] = {"kind": f["kind"], "at": at, "n": n, "fired": bool(fired), "where": c.where}
            if "mode" in f:
                rec["fault"]["mode"] = f["mode"]
        else:
            out, v = outcome(fn)
        if quiet and out[0] == "ok":
            out = ("ok", ("v", "object", type(v).__name__))
        rec["out"] = out
        if pre is not None:
            bad = [j for j, x in enumerate(owned) if fingerprint(x) != pre[j]]
            bad += [b for b, x in self.bufs.items() if fingerprint(x) != prebuf[b]]
            if bad:
                rec["touched"] = bad
        return v


class Missing(Exception):
    """The plan refers to something that does not exist (any more); happens while shrinking."""


def run_plan(plan):
    return Exec(plan).run()


def run_segments(plan, timeout=60):
    """A plan with crashes: each stretch runs in a process of its own, and only what was saved survives."""
    recs, saved, ops = [], {}, plan["ops"]
    start = 0
    while start < len(ops):
        def seg():
            e = Exec(dict(plan, ops=ops[start:]))
            e.saved = saved
            return e.run(), e.saved
        r = in_fork(seg, timeout)
        if r[0] != "ok":
            return r
        more, saved = r[1]
        for rec in more:
            rec["i"] += start
        recs += more
        start += len(more)
        if not more:
            break
    return ("ok", recs)
