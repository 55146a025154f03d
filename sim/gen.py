"""Seeded generation of sequential histories: constructions, assignments, evaluations, caller actions and faults."""
import random

import numpy as np

from . import spec
from .vals import realize

LAYERED = "em.fdem.MagneticDipoleLayeredHalfSpace"


def same_param(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and np.array_equal(a, b)
    return a is b or a == b


METHODS = [(c, m) for c in spec.CLASSES for m in list(c.methods) + list(c.props)]
PARAMS = [(c, p) for c in spec.CLASSES for p in spec.settable(c)]
TRIPLES = [(c, m, p) for c, m in METHODS for p in spec.settable(c)]


class Gen:
    def __init__(self, seed, classes=None):
        self.seed, self.rng = seed, random.Random(seed)
        self.ops = []
        self.objs = {}        # id -> (cls, canonical state)
        self.bufs = {}        # id -> current contents (np.ndarray)
        self.nobj = self.nbuf = self.nres = 0
        self.results = []     # (res id, obj id)
        self.last = {}        # obj id -> list of earlier call ops
        self.lastfn = []
        self.stored = {}
        self.pvary = 0.3      # how often a new value is derived from one already in use
        self.pspec = 0.3      # how often evaluation points are chosen relative to the source
        self.pextreme = 0.0   # how often some of those coordinates are tiny or huge
        self.pbuf = 0.5       # how often array values come from caller-owned named buffers
        self.classes = classes or spec.CLASSES
        self.pool = {}        # (kind id) -> buffer ids assigned for it
        self.focus_m = self.focus_p = self.focus_f = None      # what this history is mostly about

    def focus(self, m=None, p=None, f=None):
        self.focus_m, self.focus_p, self.focus_f = m, p, f
        return self

    def _about(self, x, share):
        return x is not None and self.rng.random() < share

    # -- values
    def own(self, d, p=None):
        """Maybe turn an inline array into a named buffer the caller keeps and may change later."""
        if d["t"] in ("arr", "carr") and self.rng.random() < (self.pbuf if p is None else p):
            b = "b%d" % self.nbuf
            self.nbuf += 1
            self.ops.append({"op": "buf", "id": b, "v": d})
            self.bufs[b] = np.array(realize(d))
            return {"t": "buf", "b": b}
        if d["t"] == "tuple":
            return {"t": "tuple", "v": [self.own(x) if isinstance(x, dict) else x for x in d["v"]]}
        return d

    def val(self, d):
        return realize(d, self.bufs)

    # -- objects
    def new(self, cls=None, full=None, like=None, bufs=None):
        rng = self.rng
        cls = cls or rng.choice(self.classes)
        kw = {}
        if like is not None:
            cls = self.objs[like][0]
        vals = {}
        names = list(cls.ctor) if cls.ctor else list(cls.params)
        st = {}
        for p in names:
            req = p in cls.required
            if not (req or rng.random() < (0.6 if full is None else full)):
                if p == "shape" and cls.name.endswith("Oksar"):
                    pass        # the default (300, 300) is needlessly slow
                else:
                    continue
            d = self.param_value(cls, p, st)
            kw[p] = d = self.own(d, bufs)
            vals[p] = self.val(d)
            st = self._partial(cls, vals)
        if "min_location" in kw:      # keep prism corners apart at construction
            pass
        o = "o%d" % self.nobj
        self.nobj += 1
        self.ops.append({"op": "new", "obj": o, "cls": cls.name, "kw": kw})
        self.objs[o] = (cls, spec.state_after_ctor(cls, vals))
        self.last[o] = []
        return o

    def _partial(self, cls, vals):
        st = {}
        for p, v in vals.items():
            if p in cls.params:
                try:
                    st[p] = np.array([]) if (v is None and p == "thickness") else cls.params[p].canon(v, st)
                except Exception:
                    pass
        for k, d in (("depth_top", 0.0), ("thickness", np.array([])), ("frequency", np.array([1.0])), ("shape", (4, 3))):
            st.setdefault(k, d)
        return st

    def param_value(self, cls, p, st):
        return spec.kind_of(cls, p).valid(self.rng, st)

    def clone_with_change(self, o):
        """A second object built from the same state except for one parameter."""
        rng = self.rng
        cls, st = self.objs[o]
        kw, later = spec.build_args(cls, st)
        names = [p for p in kw if p in cls.params]
        d = {}
        for p, v in kw.items():
            d[p] = self.desc_of(v)
        if names and not cls.groups:
            p = rng.choice(names)
            d[p] = (self.vary(o, p) if rng.random() < self.pvary else None) or self.param_value(cls, p, st)
        vals = {p: self.val(x) for p, x in d.items()}
        n = "o%d" % self.nobj
        self.nobj += 1
        self.ops.append({"op": "new", "obj": n, "cls": cls.name, "kw": d})
        self.objs[n] = (cls, spec.state_after_ctor(cls, vals))
        self.last[n] = [dict(c) for c in self.last[o]]
        return n

    @staticmethod
    def desc_of(v):
        import datetime
        if isinstance(v, np.ndarray):
            if v.dtype.kind == "c":
                return {"t": "carr", "re": v.real.tolist(), "im": v.imag.tolist()}
            return {"t": "arr", "v": v.tolist(), "dt": "i8" if v.dtype.kind == "i" else "f8"}
        if isinstance(v, bool):
            return {"t": "b", "v": v}
        if isinstance(v, int):
            return {"t": "i", "v": v}
        if isinstance(v, float):
            return {"t": "f", "v": v}
        if isinstance(v, str):
            return {"t": "s", "v": v}
        if isinstance(v, datetime.datetime):
            return {"t": "dt", "v": v.isoformat()}
        if isinstance(v, tuple):
            return {"t": "tuple", "v": list(v)}
        raise ValueError(v)

    def pick(self):
        return self.rng.choice(list(self.objs)) if self.objs else self.new()

    # -- assignments
    def set(self, o, p=None, fault=None, bufs=None):
        rng = self.rng
        cls, st = self.objs[o]
        if p is None and self._about(self.focus_p, 0.6):
            p = self.focus_p
        p = p or rng.choice(spec.settable(cls))
        if cls.groups and p in ("frequency", "thickness"):
            return self.set_layered(o, p, fault)
        if cls.name.endswith("Interferogram") and p == "shape":
            return self.set_many(o, ["shape", "data"], fault)
        d = self.param_value(cls, p, st)
        near = self.vary(o, p) if rng.random() < self.pvary else None
        d = near or d
        old = self.pool.get((cls.name, p))
        if old and rng.random() < 0.3 and self.reusable(cls, st, p, old):
            d = {"t": "buf", "b": old}
        else:
            d = self.own(d, bufs)
        if d["t"] == "buf":
            self.pool[(cls.name, p)] = d["b"]
        op = {"op": "set", "obj": o, "p": p, "v": d}
        if fault:
            op["fault"] = fault
        self.ops.append(op)
        if not fault:
            self.objs[o] = (cls, spec.apply_set(cls, st, p, self.val(d)))
        return op

    def reusable(self, cls, st, p, b):
        """Is the present content of buffer b still a valid value for p?"""
        return b in self.bufs and self.acceptable(cls, st, p, self.bufs[b])

    def acceptable(self, cls, st, p, v):
        try:
            st2 = spec.apply_set(cls, st, p, v)
        except Exception:
            return False
        if spec.kind_of(cls, p).in_domain(spec.kind_of(cls, p).canon(v, st), st) is False:
            return False
        prim = p if p in cls.params else cls.aliases[p][0]
        ok = cls.params[prim].in_domain(st2[prim], st2)
        if p in ("depth_bottom", "depth_top"):
            ok = ok and st2["depth_bottom"] >= st2["depth_top"]
        if p in ("min_location", "max_location"):
            ok = ok and bool(np.all(st2["max_location"] > st2["min_location"]))
        if cls.groups and p in ("sigma", "mu", "epsilon"):
            nl, nf = cls.params[p].shape(st)
            ok = ok and st2[p].shape in ((nl,), (nl, nf))
        return ok

    def vary(self, o, p):
        """A value closely related to one the program already used for p: the same, nearly the same, scaled, reversed, permuted, or another object's."""
        rng = self.rng
        cls, st = self.objs[o]
        if p in cls.params:
            v = st[p]
        elif p in cls.views:
            with np.errstate(all="ignore"):
                v = cls.views[p](st)
        else:
            return None
        if isinstance(v, np.generic):
            v = v.item()
        k = rng.random()
        if k < 0.2:
            c = [x for x, (cl, s2) in self.objs.items() if x != o and p in s2]
            if c:
                v = self.objs[rng.choice(c)][1][p]
        if isinstance(v, (bool, str, tuple)) or not isinstance(v, (int, float, np.ndarray)) or isinstance(v, np.ndarray) and (v.dtype.kind not in "fc" or not v.size):
            return None
        e = 1.0 + rng.choice([1e-2, 1e-3, 1e-4, 1e-5, 3e-6, 1e-6, 1e-7]) * rng.choice([1, -1, 0.5])
        if isinstance(v, np.ndarray):
            v = np.array(v)
            if k < 0.65:
                i = rng.randrange(v.size)
                if v.flat[i] == 0:
                    v.flat[i] = (abs(e - 1) if v.dtype.kind == "f" else 0.0)
                else:
                    v.flat[i] *= e
            elif k < 0.75:
                v = v * rng.choice([-1.0, 2.0, 0.5])
            elif k < 0.85 and v.ndim:
                v = v[::-1].copy() if v.ndim == 1 else v[:, ::-1].copy()
            elif k < 0.92 and v.ndim == 1:
                v = np.roll(v, 1)
        elif k < 0.75:
            v = v * e
        elif k < 0.9:
            v = v * rng.choice([-1.0, 2.0, 0.5])
        d = self.desc_of(v)
        if d["t"] == "arr" and rng.random() < 0.3:
            d["lay"] = rng.choice(spec.LAYS)
        try:
            if not self.acceptable(cls, st, p, self.val(d)):
                return None
        except Exception:
            return None
        return d

    def set_many(self, o, names, fault=None):
        op = None
        for i, p in enumerate(names):
            cls, st = self.objs[o]
            d = self.own(self.param_value(cls, p, st))
            op = {"op": "set", "obj": o, "p": p, "v": d}
            self.ops.append(op)
            self.objs[o] = (cls, spec.apply_set(cls, st, p, self.val(d)))
        return op

    def set_layered(self, o, p, fault=None):
        """frequency / thickness: same length alone, or a new length together with everything that depends on it."""
        rng = self.rng
        cls, st = self.objs[o]
        n = len(st[p])
        if fault or rng.random() < 0.5:
            kind = cls.params[p]
            d = self.own(kind.valid(rng, st, n=n) if n or p == "frequency" else {"t": "none"})
            op = {"op": "set", "obj": o, "p": p, "v": d}
            if fault:
                op["fault"] = fault
            self.ops.append(op)
            if not fault:
                self.objs[o] = (cls, spec.apply_set(cls, st, p, self.val(d)))
            return op
        return self.set_many(o, [p, "sigma", "mu", "epsilon"])

    def bad_set(self, o, p=None, hostile=False):
        rng = self.rng
        cls, st = self.objs[o]
        names = [n for n in spec.settable(cls) if spec.kind_of(cls, n).invalid(random.Random(0), st) is not None]
        if p is None and self.focus_p in names and rng.random() < 0.6:
            p = self.focus_p
        p = p or rng.choice(names)
        d = spec.hostile(rng) if hostile else spec.kind_of(cls, p).invalid(rng, st)
        if d is None:
            return None
        op = {"op": "set", "obj": o, "p": p, "v": self.own(d), "bad": not hostile}
        if hostile:
            op["hostile"] = True
        self.ops.append(op)
        return op

    def bad_new(self, cls=None):
        rng = self.rng
        cls = cls or rng.choice(self.classes)
        names = list(cls.ctor) if cls.ctor else list(cls.params)
        st = {}
        kw, vals = {}, {}
        bad = None
        cand = [p for p in names if spec.kind_of(cls, p).invalid(random.Random(0), self._partial(cls, {})) is not None]
        bp = rng.choice(cand)
        if cls.name in spec.PRISMS and rng.random() < 0.5:      # each corner is fine on its own
            lo, hi = (spec.kind_of(cls, p).valid(rng, {}) for p in ("min_location", "max_location"))
            a, b = np.array(self.val(lo), dtype=float), np.array(self.val(hi), dtype=float)
            for j in rng.sample([0, 1, 2], rng.choice([1, 1, 2, 2, 3])):
                b[j] = a[j] - rng.choice([0.0, 0.0, 1.0, 12.0, 1e-9])
            kw = {"min_location": spec.A(a.tolist()), "max_location": spec.A(b.tolist())}
            for p in names:
                if p not in kw and rng.random() < 0.4:
                    kw[p] = self.param_value(cls, p, {})
            op = {"op": "new", "obj": "x%d" % len(self.ops), "cls": cls.name, "kw": kw, "bad": "max_location"}
            self.ops.append(op)
            return op
        for p in names:
            if p == bp or p in cls.required or rng.random() < 0.4:
                st = self._partial(cls, vals)
                d = spec.kind_of(cls, p).invalid(rng, st) if p == bp else self.param_value(cls, p, st)
                if p == bp and d["t"] == "none" and p in ("location", "nodes", "thickness"):
                    d = {"t": "s", "v": "abc"}
                kw[p] = d
                if p != bp:
                    vals[p] = self.val(d)
                else:
                    bad = d
        op = {"op": "new", "obj": "x%d" % len(self.ops), "cls": cls.name, "kw": kw, "bad": bp}
        self.ops.append(op)
        return op

    # -- evaluations
    def call(self, o, again=0.5, bad=False, fault=None, keep=0.4, large=False, of=None):
        rng = self.rng
        cls, st = self.objs[o]
        prev = self.last[o]
        if prev and not bad and rng.random() < again:
            op = dict(rng.choice(prev[-3:]))
            op["obj"] = o
            k = rng.random()
            if op["op"] == "call" and k < 0.15:      # same arguments, another method with the same signature
                alt = [m for m in cls.methods if m.args == self._m(cls, op["m"]).args]
                m = rng.choice(alt)
                op["m"] = m.name
                op["kw"] = {a: b for a, b in op["kw"].items() if a in m.opts}
            elif op["op"] == "call" and k < 0.3:     # same arguments, other options
                m = self._m(cls, op["m"])
                op["kw"] = spec.draw_args(rng, m)[1]
            elif op["op"] == "call" and k < 0.42:    # same method, same shape, other numbers in a new array
                m = self._m(cls, op["m"])
                op["args"] = [self.own(self._similar(a)) for a in op["args"]]
        elif of is None and not bad and isinstance(self.focus_m, str) and rng.random() < 0.75:
            op = {"op": "get", "obj": o, "m": self.focus_m}
        elif of is None and cls.props and (not cls.methods or rng.random() < (0.25 if self.focus_m is None else 0.08)):
            op = {"op": "get", "obj": o, "m": rng.choice(cls.props)}
        elif not cls.methods:
            op = {"op": "get", "obj": o, "m": rng.choice(list(cls.params))}
        else:
            if of is None and self.focus_m is not None and not isinstance(self.focus_m, str) and rng.random() < 0.75:
                of = self.focus_m
            m = of or rng.choice(cls.methods)
            args, kw = spec.draw_args(rng, m, bad)
            if not bad and m.args and m.args[0][0] in ("xyz", "xy") and rng.random() < self.pspec:
                self.special(m, st, args)
            args = [self.own(a) for a in args]
            op = {"op": "call", "obj": o, "m": m.name, "args": args, "kw": kw}
        op.pop("res", None)
        op.pop("fault", None)
        if rng.random() < keep and not fault:
            op["res"] = "r%d" % self.nres
            self.nres += 1
            self.results.append((op["res"], o))
        if fault:
            op["fault"] = fault
        self.ops.append(op)
        if not bad:
            self.last[o].append({k: v for k, v in op.items() if k not in ("res", "fault")})
        return op

    def special(self, m, st, args):
        """Replace the points by ones on, along, inside and on the boundary of the source, and by repeated ones."""
        for i, a in enumerate(m.args):
            d = args[i]
            if a[0] in ("xyz", "samexyz", "xy") and d["t"] == "arr" and d["dt"] == "f8" and d["v"] and isinstance(d["v"][0], list) and not isinstance(d["v"][0][0], list):
                n, dim = len(d["v"]), len(d["v"][0])
                v = spec.special_points(self.rng, st, n, a[1] if len(a) > 1 else None, dim, self.rng.choice([0.3, 0.8]))
                if self.pextreme and self.rng.random() < self.pextreme:
                    for _ in range(self.rng.choice([1, 1, 2, 3])):
                        p = self.rng.choice(v)
                        e = self.rng.choice([1e-200, 1e-170, 1e-155, 1e-310, 1e160, 1e110, 1e200])
                        p[self.rng.randrange(dim)] = e if len(a) > 1 and a[1] == ">=0" else -e
                args[i] = dict(d, v=v)

    def _m(self, cls, name):
        return [m for m in cls.methods if m.name == name][0]

    def _similar(self, a):
        v = self.val(a)
        if isinstance(v, np.ndarray) and v.dtype.kind == "f" and v.size:
            w = np.array(v)
            i = self.rng.randrange(w.size)
            w.flat[i] = w.flat[i] * self.rng.choice([1.5, 0.5, 1.0000001]) + (0.0 if w.flat[i] else 0.0)
            return {"t": "arr", "v": w.tolist(), "dt": "f8" if w.dtype.itemsize == 8 else "f4"}
        return a

    def fn(self, again=0.4, fault=None, keep=0.4, of=None):
        rng = self.rng
        if of:
            args, kw = spec.FN_BY_NAME[of].gen(rng)
            op = {"op": "fn", "f": of, "args": [self.own(a) for a in args], "kw": kw}
        elif self.lastfn and rng.random() < again:
            op = dict(rng.choice(self.lastfn[-3:]))
        else:
            f = rng.choice(spec.FUNCS + spec.HELPERS)
            if self._about(self.focus_f, 0.75):
                f = self.focus_f
            args, kw = f.gen(rng)
            op = {"op": "fn", "f": f.name, "args": [self.own(a) for a in args], "kw": kw}
        op.pop("res", None)
        op.pop("fault", None)
        if rng.random() < keep and not fault and not spec.FN_BY_NAME[op["f"]].alias_ok:
            op["res"] = "r%d" % self.nres
            self.nres += 1
            self.results.append((op["res"], None))
        if fault:
            op["fault"] = fault
        self.ops.append(op)
        self.lastfn.append({k: v for k, v in op.items() if k not in ("res", "fault")})
        return op

    # -- caller actions
    def mutate(self, b=None):
        rng = self.rng
        c = [k for k, v in self.bufs.items() if v.size and v.dtype.kind in "fc" and v.flags.writeable and np.any(v != 0)]
        c = [k for k in c if self._writable(k)]
        if b is None:
            if not c:
                return None
            b = rng.choice(c[-4:] if rng.random() < 0.7 else c)
        elif b not in c:
            return None
        v = self.bufs[b]
        nz = [i for i in range(v.size) if v.flat[i] != 0]
        i = rng.choice(nz)
        f = rng.choice([1.25, 1.5, 2.0, 0.5])
        if v.dtype.kind == "f" and rng.random() < 0.3:
            idx = None            # every entry
            v *= f
        else:
            idx = i
            v.flat[i] = v.flat[i] * f
        op = {"op": "mut", "b": b, "i": idx, "f": f}
        self.ops.append(op)
        return op

    def _writable(self, b):
        for op in self.ops:
            if op["op"] == "buf" and op["id"] == b:
                return "ro" not in op["v"].get("lay", "C")
        return False

    def scribble(self):
        if not self.results:
            return None
        r, o = self.rng.choice(self.results[-5:])
        op = {"op": "scrib", "r": r, "v": self.rng.choice([0.0, -1.0, 1e30])}
        self.ops.append(op)
        return op

    def copy(self, o, how=None, fault=None):
        how = how or self.rng.choice(["copy", "deepcopy", "pickle", "pickle"])
        n = "o%d" % self.nobj
        self.nobj += 1
        op = {"op": "cp", "how": how, "obj": o, "new": n}
        if how == "pickle":
            op["proto"] = self.rng.choice([0, 1, 2, 3, 4, 5])
        if fault:
            op["fault"] = fault
        self.ops.append(op)
        cls, st = self.objs[o]
        self.objs[n] = (cls, dict(st))
        self.last[n] = [dict(c) for c in self.last[o]]
        return n

    def poke_judged(self, o):
        """The same, with a factor that leaves a valid parameter; the object then counts as having the value it reads back."""
        cls, st = self.objs[o]
        c = [p for p in cls.params if isinstance(st.get(p), np.ndarray) and st[p].size and st[p].dtype.kind in "fc"]
        if self.focus_p in c and self.rng.random() < 0.6:
            c = [self.focus_p]
        if not c:
            return None
        p, f = self.rng.choice(c), self.rng.choice([1.5, 0.5, -1.0, 1.001])
        v = st[p] * f
        try:
            if not self.acceptable(cls, st, p, v):
                return None
            after = spec.apply_set(cls, st, p, v)
        except Exception:
            return None
        if not np.array_equal(after[p], v) or any(q != p and not same_param(after[q], st[q]) for q in cls.params):
            return None
        op = {"op": "poke", "obj": o, "p": p, "f": f, "judged": True}
        self.ops.append(op)
        self.objs[o] = (cls, after)
        return op

    def poke(self, o):
        """Write into an array the object hands out for one of its parameters."""
        cls, st = self.objs[o]
        c = [p for p in cls.params if isinstance(st.get(p), np.ndarray) and st[p].size]
        if not c:
            return None
        op = {"op": "poke", "obj": o, "p": self.rng.choice(c), "f": self.rng.choice([1.5, 0.5, -1.0])}
        self.ops.append(op)
        return op

    def save(self, o):
        i = "s%d" % len(self.ops)
        self.ops.append({"op": "save", "obj": o, "id": i, "proto": self.rng.choice([0, 1, 2, 3, 4, 5])})
        self.stored[i] = (self.objs[o][0], dict(self.objs[o][1]), [self._inline(c) for c in self.last[o]])
        return i

    def load(self, i):
        n = "o%d" % self.nobj
        self.nobj += 1
        self.ops.append({"op": "load", "id": i, "new": n})
        cls, st, last = self.stored[i]
        self.objs[n] = (cls, dict(st))
        self.last[n] = [dict(c) for c in last]
        return n

    def crash(self):
        self.ops.append({"op": "crash"})
        self.objs, self.last, self.bufs, self.pool, self.results, self.lastfn = {}, {}, {}, {}, [], []

    def _inline(self, c):
        """The call with the present contents of the caller's arrays written out."""
        def f(d):
            if isinstance(d, dict) and d.get("t") == "buf":
                return self.desc_of(self.bufs[d["b"]])
            if isinstance(d, dict) and d.get("t") == "tuple":
                return {"t": "tuple", "v": [f(x) for x in d["v"]]}
            return d
        c = dict(c)
        if "args" in c:
            c["args"] = [f(a) for a in c["args"]]
        return c

    def delete(self, o):
        self.ops.append({"op": "del", "obj": o})
        del self.objs[o]
        del self.last[o]

    def fault(self, kinds):
        rng = self.rng
        k = rng.choice(kinds)
        f = {"kind": k}
        if k in ("int", "alloc", "new"):
            f["frac"] = round(rng.random(), 4)
            if k != "new" and rng.random() < 0.5:
                f["aim"] = True                  # at an instant when something is half done, if there is one
        if k == "disk":
            f["mode"] = rng.choice(["EIO", "ENOENT", "EMFILE", "short", "flip", "EIO-read"])
            f["frac"] = round(rng.random(), 4)
            f["times"] = rng.choice([1, 1, 2, 0])
        return f
