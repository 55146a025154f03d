"""A cheap fingerprint of state that outlives one statement: objects, caller arrays, everything geoana keeps at module or class level, and process-wide settings.

It only steers where faults and thread switches are placed (at instants when that state is half-way between two values); it decides nothing."""
import collections
import decimal
import functools
import gc
import os
import random
import signal
import socket
import sys
import types
import warnings

import numpy as np

_PLAIN = (int, float, complex, str, bytes, bool, type(None), np.generic)
_LRU = type(functools.lru_cache(lambda: 0))


def fp(x, depth=3):
    if isinstance(x, _PLAIN):
        return x if x == x else "nan"
    if isinstance(x, np.ndarray):
        return (x.shape, x.flags.writeable, hash(x.tobytes()) if x.nbytes < 20000 and x.dtype.kind != "O" else x.nbytes)
    if depth == 0:
        return id(x)
    if isinstance(x, dict):
        return tuple([(k if isinstance(k, _PLAIN) else id(k), fp(v, depth - 1)) for k, v in list(x.items())[:200]]) + (len(x),)
    if isinstance(x, (list, tuple, collections.deque)):
        return tuple([fp(v, depth - 1) for v in list(x)[:50]]) + (len(x),)
    if isinstance(x, (set, frozenset, bytearray)):
        return len(x)
    if isinstance(x, _LRU):
        return x.cache_info()[:2] + x.cache_info()[3:]
    if type(x).__module__.startswith("geoana"):
        return (id(x), fp(getattr(x, "__dict__", {}), depth - 1))
    return id(x)


def _function(f):
    out = []
    if f.__dict__:
        out.append(f.__dict__)
    for d in (f.__defaults__ or ()):
        if isinstance(d, (dict, list, set, np.ndarray)):
            out.append(d)
    if f.__closure__:
        out.append(f.__closure__)
    return out


def holders():
    """Places where geoana's modules and classes could keep something between calls."""
    names, things = [], []
    for n, m in list(sys.modules.items()):
        if m is None or not (n == "geoana" or n.startswith("geoana.")):
            continue
        names.append(vars(m))
        for k, v in list(vars(m).items()):
            if isinstance(v, types.FunctionType) and v.__module__ == n:
                things += _function(v)
            elif isinstance(v, _LRU):
                things.append(v)
            elif isinstance(v, type) and v.__module__ == n:
                names.append(v)
                for a in list(vars(v).values()):
                    for f in (a, getattr(a, "__func__", None), getattr(a, "fget", None), getattr(a, "fset", None)):
                        if isinstance(f, types.FunctionType):
                            things += _function(f)
                        elif isinstance(f, _LRU):
                            things.append(f)
    cells = []
    for d in names:
        for k, v in list((vars(d) if isinstance(d, type) else d).items()):
            if k.startswith("__") or isinstance(v, (types.FunctionType, types.ModuleType, types.BuiltinFunctionType, type, property, staticmethod, classmethod, str)) or callable(v) and not isinstance(v, _LRU):
                continue
            cells.append((d, k))
    return names, cells, things


class Watch:
    def __init__(self, objs=(), data=(), process=False, module=True):
        self.objs, self.data, self.process = list(objs), list(data), process
        self.names, self.cells, self.things = holders() if module else ([], [], [])

    def value(self):
        v = [len(vars(d) if isinstance(d, type) else d) for d in self.names]
        for d, k in self.cells:
            v.append(fp((vars(d) if isinstance(d, type) else d).get(k)))
        for t in self.things:
            if isinstance(t, tuple) and t and isinstance(t[0], types.CellType):
                for c in t:
                    try:
                        v.append(fp(c.cell_contents, 2))
                    except ValueError:
                        v.append(None)
            else:
                v.append(fp(t, 2))
        for o in self.objs:
            v.append(fp(getattr(o, "__dict__", None)))
        for a in self.data:
            v.append(fp(a, 2))
        if self.process:
            v.append(process())
        return hash(tuple(v))


def process():
    import scipy.special
    v = [tuple(np.geterr().values()), np.getbufsize(), os.getcwd(), gc.isenabled(), gc.get_threshold(), sys.getrecursionlimit(), sys.getswitchinterval(), len(warnings.filters),
         tuple([id(f) for f in warnings.filters[:3]]), id(warnings.showwarning), tuple(scipy.special.geterr().values()), len(os.environ), hash(tuple(os.environ._data.values())), id(sys.stdout), id(sys.stderr),
         decimal.getcontext().prec, socket.getdefaulttimeout(), str(signal.getsignal(signal.SIGINT)), signal.getitimer(signal.ITIMER_REAL)[0] > 0, repr(np.get_printoptions()), np.pi, len(sys.path)]
    h = sys.modules.get("libdlf.hankel")
    c = getattr(getattr(h, "key_101_2009", None), "cache", None)
    if c is not None:
        v.append(tuple([hash(a.tobytes()) for a in c]))
    mpl = sys.modules.get("matplotlib")
    if mpl is not None and hasattr(mpl, "rcParams"):
        v.append(hash(repr(list(dict.values(mpl.rcParams)))))
    return tuple(v)
