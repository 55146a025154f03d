"""The reference: the same evaluation on a freshly built object in a pristine process."""
import pickle

import numpy as np

from . import spec
from .forks import in_fork
from .vals import outcome, unsnap, ArrSnap


class Unknown(Exception):
    """The reference could not be established (not a statement about the system under test)."""


def build(cls, st):
    kw, later = spec.build_args(cls, {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in st.items()})
    o = cls.resolve()(**kw)
    for p, v in later:
        setattr(o, p, v)
    return o


def jiggle(x, rng, eps=None):
    if isinstance(x, ArrSnap):
        if x.dtype.kind not in "fc":
            return x
        y = ArrSnap.__new__(ArrSnap)
        y.__dict__.update(x.__dict__)
        y.data = jiggle(x.data, rng, eps)
        return y
    if isinstance(x, np.ndarray) and x.dtype.kind in "fc":
        e = eps or 4.0 * np.finfo(x.dtype).eps
        return (x * (1 + e * rng.uniform(-1, 1, x.shape))).astype(x.dtype)
    if isinstance(x, (float, complex, np.floating)):
        return type(x)(x * (1 + (eps or 1e-15) * rng.uniform(-1, 1)))
    if isinstance(x, (list, tuple)):
        return type(x)(jiggle(y, rng, eps) for y in x)
    return x


class Oracle:
    def __init__(self):
        self.memo = {}
        self.queries = 0

    def _ask(self, key, fn):
        k = pickle.dumps(key, protocol=5)
        if k not in self.memo:
            self.queries += 1
            r = in_fork(fn, 60)
            if r[0] != "ok":
                raise Unknown("%s: %s" % (key[0:3], r))
            self.memo[k] = r[1]
        return self.memo[k]

    def call(self, cls, st, op, args, kw):
        """Outcome of method/property op['m'] on a fresh object in state st."""
        def fn():
            o = build(cls, st)
            if op["op"] == "get":
                return outcome(lambda: getattr(o, op["m"]))[0]
            a, k = unsnap(args), unsnap(kw)
            return outcome(lambda: getattr(o, op["m"])(*a, **k))[0]
        return self._ask(("call", cls.name, op["m"], op["op"], sorted(st.items(), key=lambda t: t[0]), args, kw), fn)

    def variants(self, target, st, op, args, kw, n=8):
        """Reference results with every floating-point input moved by a rounding error or so."""
        out = []
        for k in range(n):
            rng = np.random.RandomState(k)
            try:
                if op["op"] == "fn":
                    out.append(self.fn(target, jiggle(args, rng), kw))
                else:
                    out.append(self.call(target, {p: jiggle(v, rng) for p, v in st.items()}, op, jiggle(args, rng) if args is not None else None, kw))
            except Unknown:
                pass
        return out

    def fn(self, name, args, kw):
        def fn():
            a, k = unsnap(args), unsnap(kw)
            return outcome(lambda: spec.FN_BY_NAME[name].resolve()(*a, **k))[0]
        return self._ask(("fn", name, args, kw), fn)
