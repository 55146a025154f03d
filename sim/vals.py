"""Values in plans (JSON), their realisation as Python objects, snapshots, and comparison of outcomes."""
import datetime
import hashlib
import math

import numpy as np


class SimInterrupt(KeyboardInterrupt):
    """An interrupt delivered by the simulator."""


# ---------------------------------------------------------------- plan values -> Python objects

class Hostile:
    """An array-like / number-like whose conversion fails."""

    def __init__(self, exc, n):
        self.exc, self.n = exc, n

    def _hit(self):
        self.n -= 1
        if self.n < 0:
            raise {"RuntimeError": RuntimeError, "MemoryError": MemoryError, "KeyboardInterrupt": SimInterrupt,
                   "OSError": OSError, "ValueError": ValueError, "ZeroDivisionError": ZeroDivisionError}[self.exc]("hostile value")

    def __float__(self):
        self._hit()
        return 1.0

    def __complex__(self):
        self._hit()
        return 1.0 + 0j

    def __int__(self):
        self._hit()
        return 1

    def __str__(self):
        self._hit()
        return "hostile"

    def __len__(self):
        self._hit()
        return 3

    def __getitem__(self, i):
        self._hit()
        if i >= 3:
            raise IndexError(i)
        return 1.0

    def __array__(self, dtype=None, copy=None):
        self._hit()
        return np.ones(3, dtype=dtype or float)


def layout(a, lay):
    """A with the same contents in the requested memory layout."""
    if lay == "C":
        return np.array(a, order="C")
    if lay == "F":
        return np.array(a, order="F")
    if lay == "ro":
        b = np.array(a, order="C")
        b.flags.writeable = False
        return b
    if lay == "step":                       # every other entry of a larger array
        if a.ndim == 0:
            return np.array(a)
        big = np.full((2 * a.shape[0] + 1,) + a.shape[1:], 7, dtype=a.dtype)
        v = big[1::2][: a.shape[0]]
        v[...] = a
        return v
    if lay == "cols":                       # some columns of a wider table
        if a.ndim == 0:
            return np.array(a)
        big = np.full(a.shape[:-1] + (a.shape[-1] + 2,), 7, dtype=a.dtype)
        v = big[..., 1:-1]
        v[...] = a
        return v
    if lay == "neg":                        # reversed view
        if a.ndim == 0:
            return np.array(a)
        v = np.array(a[::-1], order="C")[::-1]
        return v
    if lay == "rostep":
        v = layout(a, "step")
        v.flags.writeable = False
        return v
    raise ValueError(lay)


def realize(d, bufs=None):
    t = d["t"]
    if t == "buf":
        return bufs[d["b"]]
    if t in ("f", "i", "s", "b"):
        return {"f": float, "i": int, "s": str, "b": bool}[t](d["v"])
    if t == "none":
        return None
    if t == "npf":
        return np.float64(d["v"])
    if t == "npi":
        return np.int64(d["v"])
    if t == "0d":
        return np.array(d["v"], dtype=float)
    if t == "c":
        return complex(*d["v"])
    if t == "arr":
        a = np.array(d["v"], dtype=d.get("dt", "f8"))
        if "shape" in d:
            a = a.reshape(d["shape"])
        return layout(a, d.get("lay", "C"))
    if t == "carr":
        a = np.array(d["re"], dtype=float) + 1j * np.array(d["im"], dtype=float)
        return layout(a, d.get("lay", "C"))
    if t == "list":
        return [realize(x, bufs) if isinstance(x, dict) else _plainlist(x) for x in d["v"]]
    if t == "tuple":
        return tuple(realize(x, bufs) if isinstance(x, dict) else _plainlist(x) for x in d["v"])
    if t == "dt":
        return datetime.datetime.fromisoformat(d["v"])
    if t == "obj":
        return object()
    if t == "hostile":
        return Hostile(d["exc"], d["n"])
    raise ValueError("unknown value %r" % (d,))


def _plainlist(x):
    return [_plainlist(y) for y in x] if isinstance(x, list) else x


# ---------------------------------------------------------------- snapshots

class ArrSnap:
    """Contents, layout and flags of an array at one instant."""

    def __init__(self, a):
        self.shape, self.strides, self.dtype = a.shape, a.strides, a.dtype
        self.data = np.array(a, order="C", copy=True)
        self.writeable = a.flags.writeable

    def rebuild(self, writeable=True):
        """A fresh, unshared array with the same contents and strides."""
        if self.data.size == 0 or 0 in self.strides and self.data.size > 1:
            out = self.data.copy()
        else:
            lo = sum(min(0, (n - 1) * s) for n, s in zip(self.shape, self.strides))
            hi = sum(max(0, (n - 1) * s) for n, s in zip(self.shape, self.strides)) + self.dtype.itemsize
            out = np.ndarray(self.shape, self.dtype, buffer=bytearray(hi - lo), offset=-lo, strides=self.strides)
            out[...] = self.data
        if not writeable:
            out.flags.writeable = False
        return out


def snap(x):
    if isinstance(x, np.ndarray):
        return ArrSnap(x)
    if isinstance(x, (list, tuple)):
        return type(x)(snap(y) for y in x)
    if isinstance(x, dict):
        return {k: snap(v) for k, v in x.items()}
    return x


def unsnap(x, writeable=True):
    if isinstance(x, ArrSnap):
        return x.rebuild(writeable)
    if isinstance(x, (list, tuple)):
        return type(x)(unsnap(y, writeable) for y in x)
    if isinstance(x, dict):
        return {k: unsnap(v, writeable) for k, v in x.items()}
    if isinstance(x, Hostile):
        return Hostile(x.exc, x.n)
    return x


def value_of(x):
    """Plain contents of a snapshot."""
    if isinstance(x, ArrSnap):
        return x.data
    if isinstance(x, (list, tuple)):
        return type(x)(value_of(y) for y in x)
    return x


def base_of(a):
    while isinstance(a, np.ndarray) and isinstance(a.base, np.ndarray):
        a = a.base
    return a


def fingerprint(x):
    """Exact identity of the contents and flags of something the caller owns."""
    if isinstance(x, np.ndarray):
        b = base_of(x)
        return ("arr", x.shape, x.strides, str(x.dtype), x.flags.writeable, b.flags.writeable, b.shape, str(b.dtype),
                hashlib.sha1(np.ascontiguousarray(b).tobytes()).hexdigest(), hashlib.sha1(np.ascontiguousarray(x).tobytes()).hexdigest())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(fingerprint(y) for y in x)
    if isinstance(x, dict):
        return ("dict",) + tuple((repr(k), fingerprint(v)) for k, v in x.items())
    if isinstance(x, Hostile):
        return ("hostile",)
    if isinstance(x, (int, float, complex, str, bytes, bool, type(None), np.generic, datetime.datetime)):
        return (type(x).__name__, repr(x))
    if hasattr(x, "__dict__"):
        return (type(x).__name__,) + tuple((k, fingerprint(v)) for k, v in sorted(vars(x).items()))
    return (type(x).__name__,)


# ---------------------------------------------------------------- outcomes

def norm_value(v):
    """A picklable, comparable form of a result."""
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ("other", repr(v))
        return ("a", type(v).__name__, str(v.dtype), v.shape, np.array(v, order="C", copy=True))
    if isinstance(v, np.generic):
        return ("a", "scalar", str(v.dtype), (), np.array(v))
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes, datetime.datetime)):
        return ("v", type(v).__name__, v)
    if isinstance(v, int):
        return ("v", "int", v)
    if isinstance(v, (float, complex)):
        return ("a", type(v).__name__, str(np.asarray(v).dtype), (), np.array(v))
    if isinstance(v, (tuple, list)):
        return ("t", type(v).__name__, tuple(norm_value(x) for x in v))
    if type(v).__name__ == "Rotation":
        return ("rot", norm_value(np.array(v.as_matrix())))
    return ("other", type(v).__name__)


def attempt(fn):
    """Run fn; nothing is computed afterwards, so that a fault armed around it cannot hit the harness."""
    try:
        return (True, fn())
    except BaseException as e:   # noqa: interrupts and SystemExit are outcomes too
        return (False, e)


def ending(r):
    """('ok', normalised value) or ('err', exception class name, text), and the value itself."""
    ok, v = r
    if ok:
        return ("ok", norm_value(v)), v
    return ("err", type(v).__name__, str(v)[:200]), None


def outcome(fn):
    return ending(attempt(fn))


RTOL = 1e-8


def close(x, y, rtol=RTOL, scale=None):
    x, y = np.asarray(x), np.asarray(y)
    if x.shape != y.shape:
        return False
    if x.size == 0:
        return True
    if x.dtype.kind not in "fciub" or y.dtype.kind not in "fciub":
        return bool(np.all(x == y))
    if x.dtype == y.dtype and x.tobytes() == y.tobytes():
        return True
    with np.errstate(all="ignore"):
        if x.dtype.kind == "c" or y.dtype.kind == "c":
            return close(x.real, y.real, rtol, scale) and close(np.imag(x), np.imag(y), rtol, scale) if scale is not None else _cclose(x, y, rtol)
        nx, ny = np.isnan(x), np.isnan(y)
        if (nx != ny).any():
            return False
        ix, iy = np.isinf(x), np.isinf(y)
        if (ix != iy).any() or (x[ix] != y[iy]).any():
            return False
        ok = ~(nx | ix)
        if not ok.any():
            return True
        a, b = x[ok].astype(float), y[ok].astype(float)
        s = max(np.abs(a).max(), np.abs(b).max()) if scale is None else scale
        return bool((np.abs(a - b) <= rtol * np.maximum(np.maximum(np.abs(a), np.abs(b)), 1e-3 * s) + 1e-300).all())


def _cclose(x, y, rtol):
    ax, ay = np.abs(x), np.abs(y)
    fin = np.isfinite(x) & np.isfinite(y)
    if (np.isfinite(x) != np.isfinite(y)).any():
        return False
    if not fin.any():
        return True
    s = max(ax[fin].max(), ay[fin].max())
    return bool((np.abs(x[fin] - y[fin]) <= rtol * np.maximum(np.maximum(ax[fin], ay[fin]), 1e-3 * s) + 1e-300).all())


def same_value(x, y, rtol=RTOL):
    if x[0] != y[0]:
        return False
    if x[0] == "a":
        return x[1:4] == y[1:4] and close(x[4], y[4], rtol)
    if x[0] == "t":
        return x[1] == y[1] and len(x[2]) == len(y[2]) and all(same_value(p, q, rtol) for p, q in zip(x[2], y[2]))
    if x[0] == "rot":
        return same_value(x[1], y[1], rtol)
    return x == y


def same_outcome(x, y, rtol=RTOL):
    """Same kind of ending; same type, shape and value when it is a value."""
    if x[0] != y[0]:
        return False
    if x[0] == "err":
        return x[1] == y[1]
    return same_value(x[1], y[1], rtol)


def magnitude(v):
    """Largest finite magnitude in a value."""
    if v[0] == "t":
        return max([magnitude(x) for x in v[2]] or [0.0])
    if v[0] != "a" or v[4].dtype.kind not in "fciu":
        return 0.0
    with np.errstate(all="ignore"):
        a = np.abs(v[4])
        a = a[np.isfinite(a)]
    return float(a.max()) if a.size else 0.0


def within_conditioning(got, want, variants, floor=0.0):
    """Is the difference between two results no more than what rounding errors in the inputs do to the reference, or than floor?"""
    if got[0] != "ok" or want[0] != "ok":
        return False
    var = [v[1] for v in variants if v[0] == "ok"]
    return len(var) >= 3 and _within(got[1], want[1], var, floor)


def _within(x, y, var, floor=0.0):
    if x[0] != y[0] or any(v[0] != y[0] for v in var):
        return False
    if x[0] == "t":
        return len(x[2]) == len(y[2]) and all(len(v[2]) == len(y[2]) for v in var) and all(_within(p, q, [v[2][i] for v in var], floor) for i, (p, q) in enumerate(zip(x[2], y[2])))
    if x[0] == "rot":
        return _within(x[1], y[1], [v[1] for v in var], floor)
    if x[0] != "a" or x[1:4] != y[1:4] or any(v[1:4] != y[1:4] for v in var):
        return x == y if x[0] != "a" else False
    a, b = x[4], y[4]
    with np.errstate(all="ignore"):
        vs = np.array([v[4] for v in var])
        allfin = np.isfinite(vs).all(axis=0) & np.isfinite(b)
        anyfin = np.isfinite(vs).any(axis=0) | np.isfinite(b)
        wobbly = anyfin & ~allfin                      # finite or not depending on rounding
        if (np.isfinite(a) & ~anyfin).any() or (~np.isfinite(a) & allfin).any():
            return False
        never = ~anyfin
        if b.dtype.kind == "f" and ((np.isnan(a) != np.isnan(b)) & never & ~(np.isnan(vs) != np.isnan(b)).any(axis=0)).any():
            return False
        ok = allfin & ~wobbly
        if not ok.any():
            return True
        spread = np.abs(vs - b).max(axis=0)
        s = np.abs(b[ok]).max()
        tol = 50 * spread + RTOL * np.maximum(np.abs(b), 1e-3 * s) + floor + 1e-300
        return bool((np.abs(a - b)[ok] <= tol[ok]).all())


def brief(o, n=160):
    if o is None:
        return "nothing"
    if o[0] == "err":
        return "%s(%s)" % (o[1], o[2][:80])

    def f(v):
        if v[0] == "a":
            return "%s%s %s" % (v[2], list(v[3]), np.array2string(v[4].ravel()[:4], precision=6))
        if v[0] == "t":
            return "(" + ", ".join(f(x) for x in v[2]) + ")"
        if v[0] == "rot":
            return f(v[1])
        return repr(v[1:])
    return f(o[1])[:n]
