"""The model of geoana's public surface: parameters with their domains, views, methods and functions.

It knows what is *allowed* and what must be *read back*; it contains no field formulas.  Expected field values always
come from the real code, evaluated on a fresh object in a pristine process.
"""
import datetime
import math

import numpy as np
import scipy.constants

MU0 = float(scipy.constants.mu_0)
EPS0 = float(scipy.constants.epsilon_0)


# ---------------------------------------------------------------- descriptors
def F(v):
    return {"t": "f", "v": v}


def A(v, lay="C", dt="f8"):
    return {"t": "arr", "v": v, "lay": lay, "dt": dt}


def rnd3(x):
    return float("%.6g" % x)


def scalar_forms(rng, v):
    """The same number in the different shapes callers use."""
    k = rng.random()
    if k < 0.6:
        return F(v)
    if k < 0.75:
        return {"t": "npf", "v": v}
    if k < 0.9:
        return {"t": "0d", "v": v}
    return {"t": "i", "v": int(v)} if v == int(v) and abs(v) < 1e9 else F(v)


BAD_NUMBERS = [{"t": "s", "v": "abc"}, {"t": "none"}, {"t": "list", "v": [1.0, 2.0]}, {"t": "obj"},
               {"t": "c", "v": [1.0, 1.0]}, {"t": "arr", "v": [1.0, 2.0], "dt": "f8"}]


def hostile(rng):
    return {"t": "hostile", "exc": rng.choice(["RuntimeError", "MemoryError", "KeyboardInterrupt", "OSError", "ValueError", "ZeroDivisionError"]),
            "n": rng.choice([0, 0, 0, 1, 2])}


# ---------------------------------------------------------------- kinds
class Kind:
    arrayish = False

    def valid(self, rng, st):
        raise NotImplementedError

    def invalid(self, rng, st):
        raise NotImplementedError

    def canon(self, v, st):
        """What reading the parameter must give after assigning v (st: the other parameters, canonical)."""
        raise NotImplementedError

    def in_domain(self, got, st):
        raise NotImplementedError


def isnum(x):
    return isinstance(x, (float, int, np.floating)) and not isinstance(x, bool)


class Num(Kind):
    def __init__(self, lo=None, strict=False, hi=None, ranges=((1e-3, 1e3),), edge=(), sign=False):
        self.lo, self.strict, self.hi, self.ranges, self.edge, self.sign = lo, strict, hi, ranges, tuple(edge), sign

    def draw(self, rng):
        if self.edge and rng.random() < 0.15:
            return rng.choice(self.edge)
        lo, hi = rng.choice(self.ranges)
        if lo > 0:
            v = math.exp(rng.uniform(math.log(lo), math.log(hi)))
        else:
            v = rng.uniform(lo, hi)
        v = rnd3(v)
        if self.sign and rng.random() < 0.3:
            v = -v
        if self.lo is not None and (v < self.lo or (self.strict and v == self.lo)):
            v = self.ranges[0][1]
        if self.hi is not None and v > self.hi:
            v = self.hi
        return v

    def valid(self, rng, st):
        return scalar_forms(rng, self.draw(rng))

    def invalid(self, rng, st):
        c = list(BAD_NUMBERS)
        if self.lo is not None:
            c += [F(self.lo - 1.0), F(self.lo - 1e-12 if self.lo else -1e-300), F(-1e6 + self.lo), {"t": "npf", "v": self.lo - 2.5}, {"t": "0d", "v": self.lo - 3.0}] * 2
            if self.strict:
                c += [F(self.lo), {"t": "i", "v": int(self.lo)}, F(-0.0), {"t": "npf", "v": self.lo}, {"t": "0d", "v": self.lo}] * 2
        if self.hi is not None:
            c += [F(self.hi + 1.0), F(self.hi * (1 + 1e-12)), F(self.hi * 10)] * 3
        return rng.choice(c)

    def canon(self, v, st):
        return float(v)

    def in_domain(self, g, st):
        if not isnum(g):
            return False
        if self.lo is not None and (g < self.lo or (self.strict and g == self.lo)):
            return False
        return not (self.hi is not None and g > self.hi)


class Bool(Kind):
    def valid(self, rng, st):
        return {"t": "b", "v": rng.random() < 0.5}

    def invalid(self, rng, st):
        return None

    def canon(self, v, st):
        return v

    def in_domain(self, g, st):
        return True


LAYS = ["C", "C", "C", "F", "step", "cols", "neg", "ro", "rostep"]


def vec_forms(rng, v):
    k = rng.random()
    if k < 0.25:
        return {"t": "list", "v": v}
    if k < 0.35:
        return {"t": "tuple", "v": v}
    if k < 0.45:
        return A([int(x) for x in v], "C", "i8") if all(x == int(x) for x in v) else A(v)
    return A(v, rng.choice(LAYS))


class Vec(Kind):
    """A single point or vector; zrule constrains the last component."""
    arrayish = True

    def __init__(self, n=3, scale=10.0, zrule=None, centre=None, nonzero=False):
        self.n, self.scale, self.zrule, self.centre, self.nonzero = n, scale, zrule, centre, nonzero

    def draw(self, rng):
        c = self.centre or [0.0] * self.n
        v = [rnd3(ci + rng.uniform(-self.scale, self.scale)) for ci in c]
        if rng.random() < 0.2:
            v = [float(round(x)) for x in v]
        if rng.random() < 0.15:
            v[rng.randrange(self.n)] = c[0] if self.centre else 0.0
        if not self.centre and rng.random() < 0.05:
            v = [x * rng.choice([1e-3, 1e2, 1e4]) for x in v]
        if self.zrule == "<=0":
            v[-1] = -abs(v[-1]) if rng.random() < 0.8 else 0.0
        elif self.zrule == ">=0":
            v[-1] = abs(v[-1]) if rng.random() < 0.8 else 0.0
        elif self.zrule == "0":
            v[-1] = 0.0
        return v

    def valid(self, rng, st):
        return vec_forms(rng, self.draw(rng))

    def invalid(self, rng, st):
        n = self.n
        c = [{"t": "s", "v": "abc"}, {"t": "obj"}, {"t": "list", "v": [1.0] * (n - 1)}, {"t": "list", "v": [1.0] * (n + 1)},
             A([[1.0] * n] * 2), A([[1.0, 2.0]] * n) if n == 3 else A([[1.0] * 3] * n), F(1.0), {"t": "list", "v": [[1.0], [2.0, 3.0], [1.0]]},
             {"t": "list", "v": ["a"] * n}, A([1.0] * (n + 2), "step"), {"t": "arr", "v": [], "dt": "f8"}]
        if self.zrule in ("<=0", ">=0", "0"):
            v = self.draw(rng)
            bad = {"<=0": [1.0, 1e-9, 250.0], ">=0": [-1.0, -1e-9, -250.0], "0": [1.0, -1.0, 1e-9, -1e-9]}[self.zrule]
            v[-1] = rng.choice(bad)
            c += [vec_forms(rng, v)] * 6
        return rng.choice(c)

    def canon(self, v, st):
        return np.array(v, dtype=float)

    def in_domain(self, g, st):
        if not (isinstance(g, np.ndarray) and g.dtype.kind == "f" and g.shape == (self.n,)):
            return False
        if self.zrule == "<=0":
            return g[-1] <= 0
        if self.zrule == ">=0":
            return g[-1] >= 0
        if self.zrule == "0":
            return g[-1] == 0
        return True


class Orient(Kind):
    arrayish = True

    def __init__(self, plane=False):
        self.plane = plane

    def valid(self, rng, st):
        if rng.random() < 0.3:
            return {"t": "s", "v": rng.choice("xXyY" if self.plane else "xXyYzZ")}
        m = rng.choice([1.0, 1.0, 1e-3, 25.0, 1e4])
        v = [rnd3(m * rng.uniform(-1, 1)) for _ in range(3)]
        if rng.random() < 0.35:
            v = [0.0, 0.0, 0.0]
            v[rng.randrange(3)] = rng.choice([1.0, -1.0, -1.0, 2.0])
        if self.plane:
            v[2] = 0.0
        if not any(v):
            v[0] = 1.0
        return vec_forms(rng, v)

    def invalid(self, rng, st):
        c = [{"t": "s", "v": "abc"}, {"t": "s", "v": ""}, {"t": "s", "v": "xy"}, {"t": "obj"}, {"t": "list", "v": [1.0, 0.0]},
             {"t": "list", "v": [1.0, 0.0, 0.0, 0.0]}, A([[1.0, 0.0, 0.0]] * 2), A([[1.0, 2.0]] * 3), F(2.0), A([0.0, 0.0, 0.0]),
             {"t": "list", "v": [0.0, 0.0, 0.0]}, {"t": "list", "v": ["a", "b", "c"]}, {"t": "list", "v": [0, 0, 0]}]
        if self.plane:
            c += [{"t": "s", "v": "z"}, {"t": "s", "v": "Z"}, A([1.0, 0.0, 1.0]), A([0.0, 0.0, 1.0]), {"t": "list", "v": [1.0, 1.0, -1e-9]}] * 2
        return rng.choice(c)

    def canon(self, v, st):
        if isinstance(v, str):
            return np.eye(3)["xyz".index(v.lower())]
        v = np.array(v, dtype=float).reshape(3)
        return v / np.linalg.norm(v)

    def in_domain(self, g, st):
        if not (isinstance(g, np.ndarray) and g.dtype.kind == "f" and g.shape == (3,)):
            return False
        if not abs(np.linalg.norm(g) - 1) < 1e-9:
            return False
        return not self.plane or g[2] == 0


class Nodes(Kind):
    arrayish = True

    def __init__(self, single=False):
        self.single = single

    def valid(self, rng, st):
        n = 1 if self.single else rng.choice([1, 2, 2, 3, 4, 5]) if rng.random() < 0.96 else rng.choice([9, 17, 33, 65, 130])
        v = [[rnd3(rng.uniform(-20, 20)) for _ in range(3)] for _ in range(n)]
        if n >= 3 and rng.random() < 0.4:
            v[-1] = list(v[0])
        if not self.single and rng.random() < 0.25:
            v = self.arranged(rng)
            n = len(v)
        elif not self.single:
            k = rng.random()
            if k < 0.12:                  # a node given twice
                i = rng.randrange(n)
                v.insert(i + 1, list(v[i]))
                n += 1
            elif k < 0.2 and n >= 2:      # a wire along one axis, possibly folded back
                a = rng.randrange(3)
                v = [[x if j == a else v[0][j] for j, x in enumerate(q)] for q in v]
            elif k < 0.26 and n >= 3:     # nodes on one line
                v = [[rnd3(v[0][j] + t * (v[1][j] - v[0][j])) for j in range(3)] for t in range(n)]
        k = rng.random()
        if k < 0.2:
            return {"t": "list", "v": v}
        if n == 1 and k < 0.5:
            return A(v[0], rng.choice(LAYS))
        return A(v, rng.choice(LAYS))

    @staticmethod
    def arranged(rng):
        """Wires as people lay them: straight and evenly divided, square, round, stacked, of many or of very short pieces."""
        k = rng.random()
        c = [float(rng.randint(-5, 5)) for _ in range(3)]
        if k < 0.3:                       # straight, equal steps
            d = [rng.choice([0.0, 1.0, -0.5, 2.0]) for _ in range(3)]
            d = d if any(d) else [1.0, 0.0, 0.0]
            return [[c[j] + i * d[j] for j in range(3)] for i in range(rng.choice([2, 3, 3, 5, 9]))]
        if k < 0.55:                      # square in a plane, closed or not
            a, b = rng.sample([0, 1, 2], 2)
            h = rng.choice([0.5, 1.0, 10.0])
            q = []
            for s, t in ((-1, -1), (1, -1), (1, 1), (-1, 1), (-1, -1)):
                p = list(c)
                p[a] += s * h
                p[b] += t * h
                q.append(p)
            return q[: rng.choice([4, 5, 5])] if rng.random() < 0.7 else q[::-1]
        if k < 0.75:                      # ring
            n = rng.choice([5, 8, 17, 40])
            r = rng.choice([0.5, 10.0])
            return [[c[0] + r * math.cos(2 * math.pi * i / n), c[1] + r * math.sin(2 * math.pi * i / n), c[2]] for i in range(n + 1)]
        if k < 0.85:                      # out and back over the same nodes
            q = [[float(rng.randint(-5, 5)) for _ in range(3)] for _ in range(3)]
            return q + q[-2::-1]
        f = rng.choice([1e-6, 1e4])
        return [[rnd3(rng.uniform(-20, 20)) * f for _ in range(3)] for _ in range(rng.choice([2, 3, 4]))]

    def invalid(self, rng, st):
        return rng.choice([{"t": "s", "v": "abc"}, {"t": "obj"}, A([[1.0, 2.0]] * 3), A([[1.0, 2.0, 3.0, 4.0]] * 2), F(1.0),
                           {"t": "list", "v": [[1.0], [2.0, 3.0]]}, A([[[1.0, 2.0, 3.0]] * 2] * 2), A([1.0, 2.0]), A([1.0, 2.0, 3.0, 4.0, 5.0, 6.0])])

    def canon(self, v, st):
        return np.atleast_2d(np.array(v, dtype=float))

    def in_domain(self, g, st):
        return isinstance(g, np.ndarray) and g.dtype.kind == "f" and g.ndim == 2 and g.shape[1] == 3 and g.shape[0] >= 1


class Samples(Kind):
    """Frequencies or times: a scalar or a 1-d array of non-negative numbers."""
    arrayish = True

    def __init__(self, lo, hi, dims=(0, 1), as1d=False):
        self.lo, self.hi, self.dims, self.as1d = lo, hi, dims, as1d

    def valid(self, rng, st, n=None):
        def one():
            return 0.0 if rng.random() < 0.02 else rnd3(math.exp(rng.uniform(math.log(self.lo), math.log(self.hi))))
        if rng.choice(self.dims) == 0 and n in (None, 1):
            return scalar_forms(rng, one())
        n = n or (rng.choice([1, 2, 2, 3, 4]) if rng.random() < 0.96 else rng.choice([7, 12, 33, 70, 130]))
        v = [one() for _ in range(n)]
        k = rng.random()
        if n > 1 and k < 0.15:
            v[rng.randrange(n)] = v[rng.randrange(n)]
        elif n > 1 and k < 0.3:
            v.sort(reverse=k < 0.2)
        return vec_forms(rng, v)

    def invalid(self, rng, st):
        v = [1.0, 2.0, 3.0]
        v[rng.randrange(3)] = rng.choice([-1.0, -1e-9, -1e5])
        return rng.choice([F(-1.0), F(-1e-12), A(v), {"t": "list", "v": v}, A(v, "step"), A([[1.0, 2.0], [3.0, 4.0]]), {"t": "s", "v": "abc"},
                           {"t": "obj"}, {"t": "list", "v": [[1.0], [2.0, 3.0]]}, {"t": "list", "v": ["a", "b"]}, A([[[1.0]]])])

    def canon(self, v, st):
        a = np.array(v, dtype=float)
        return np.atleast_1d(a) if self.as1d else a

    def in_domain(self, g, st):
        return isinstance(g, np.ndarray) and g.dtype.kind == "f" and g.ndim <= 1 and (not self.as1d or g.ndim == 1) and bool((g >= 0).all())


class Thick(Kind):
    arrayish = True

    def valid(self, rng, st, n=None):
        if n is None:
            n = rng.choice([0, 1, 1, 2, 3]) if rng.random() < 0.96 else rng.choice([5, 8, 12, 20])
        if n == 0:
            return rng.choice([{"t": "none"}, {"t": "list", "v": []}, {"t": "arr", "v": [], "dt": "f8"}])
        v = [rnd3(rng.uniform(0.5, 30)) for _ in range(n)]
        if rng.random() < 0.12:
            v[rng.randrange(n)] = rng.choice([v[0], 0.0, 1e-3, 5e3])
        if n == 1 and rng.random() < 0.2:
            return F(v[0])
        return vec_forms(rng, v)

    def invalid(self, rng, st):
        v = [rnd3(rng.uniform(0.5, 30)) for _ in range(max(1, len(np.atleast_1d(st["thickness"])) if st.get("thickness") is not None else 2))]
        v[rng.randrange(len(v))] = rng.choice([-1.0, -1e-9, -40.0])
        return rng.choice([F(-1.0), A([1.0, -1.0]), {"t": "list", "v": [-1e-9, 3.0]}, A([[1.0, 2.0]] * 2), {"t": "s", "v": "abc"}, {"t": "obj"},
                           {"t": "list", "v": ["a", "b"]}, A([3.0, 2.0, -4.0], "step"), A(v), {"t": "list", "v": v}])

    def canon(self, v, st):
        return np.array([]) if v is None else np.atleast_1d(np.array(v, dtype=float))

    def in_domain(self, g, st):
        return isinstance(g, np.ndarray) and g.dtype.kind == "f" and g.ndim == 1 and bool((g >= 0).all())


class LayerProp(Kind):
    arrayish = True

    def __init__(self, lo, hi, floor, strict):
        self.lo, self.hi, self.floor, self.strict = lo, hi, floor, strict

    def shape(self, st):
        return len(np.atleast_1d(st["thickness"])) + 1, len(np.atleast_1d(st["frequency"]))

    def one(self, rng):
        return rnd3(math.exp(rng.uniform(math.log(self.lo), math.log(self.hi))))

    def valid(self, rng, st):
        nl, nf = self.shape(st)
        k = rng.random()
        if k < 0.25:
            return F(self.one(rng))
        if k < 0.3:
            return {"t": "c", "v": [self.one(rng), 0.0]}
        if k < 0.7:
            v = [self.one(rng) for _ in range(nl)]
            if rng.random() < 0.15:
                v = [v[0]] * nl
            return vec_forms(rng, v) if rng.random() < 0.8 else {"t": "carr", "re": v, "im": [rnd3(rng.uniform(0, 0.1 * x)) for x in v], "lay": rng.choice(LAYS)}
        v = [[self.one(rng) for _ in range(nf)] for _ in range(nl)]
        if rng.random() < 0.7:
            return A(v, rng.choice(LAYS))
        return {"t": "carr", "re": v, "im": [[rnd3(rng.uniform(0, 0.1 * x)) for x in r] for r in v], "lay": rng.choice(LAYS)}

    def invalid(self, rng, st):
        nl, nf = self.shape(st)
        good = [self.one(rng) for _ in range(nl)]
        neg = list(good)
        neg[rng.randrange(nl)] = self.floor * 0.5 if self.floor > 0 else rng.choice([-1.0, -1e-9] + ([0.0] if self.strict else []))
        grid = [[self.one(rng) for _ in range(nf)] for _ in range(nl)]
        im = [[0.0] * nf for _ in range(nl)]
        i, j = rng.randrange(nl), rng.randrange(nf)
        if rng.random() < 0.7:
            grid[i][j] = self.floor * 0.5 if self.floor > 0 else rng.choice([-1.0, -1e-9] + ([0.0] if self.strict else []))
        else:
            im[i][j] = -1e-3 * grid[i][j]
        img = [0.0] * nl
        img[i] = -1e-3 * good[i]
        if rng.random() < 0.4:            # one wrong entry in a full table
            if any(any(r) for r in im) or rng.random() < 0.3:
                return {"t": "carr", "re": grid, "im": im, "lay": rng.choice(LAYS)}
            return A(grid, rng.choice(LAYS))
        return rng.choice([A(neg), {"t": "list", "v": neg}, A(neg, "step"), F(-1.0), {"t": "s", "v": "abc"}, {"t": "none"}, {"t": "obj"},
                           {"t": "carr", "re": good, "im": img},
                           A(good + [good[0]]), A([good + [good[0]]] * (nl + 1)), A([[[good[0]] * nf] * nl] * 2),
                           {"t": "carr", "re": good, "im": [-1e-3 * g for g in good]}, {"t": "list", "v": ["a"] * nl}])

    def canon(self, v, st):
        nl, nf = self.shape(st)
        if isinstance(v, (list, tuple, np.ndarray)) and not (isinstance(v, np.ndarray) and v.ndim == 0):
            return np.atleast_1d(np.array(v)).astype(complex)
        if isinstance(v, np.ndarray):
            return np.atleast_1d(v).astype(complex)
        return complex(v) * np.ones(nl)

    def in_domain(self, g, st):
        if not (isinstance(g, np.ndarray) and g.dtype.kind == "c" and g.ndim in (1, 2)):
            return False
        re = g.real
        return bool((g.imag >= 0).all() and ((re > self.floor) if self.strict else (re >= self.floor)).all())


class Str(Kind):
    WORDS = ["", "Dinar", "ERS", "Gareth Funning", "some longer text", "100195B"]

    def valid(self, rng, st):
        return {"t": "s", "v": rng.choice(self.WORDS) + str(rng.randrange(100))}

    def invalid(self, rng, st):
        return None

    def canon(self, v, st):
        return str(v)

    def in_domain(self, g, st):
        return isinstance(g, str)


class IntK(Kind):
    def valid(self, rng, st):
        v = rng.choice([35, 1, 60, 17, -33, -10, 35])
        return rng.choice([{"t": "i", "v": v}, {"t": "npi", "v": v}])

    def invalid(self, rng, st):
        return rng.choice([{"t": "s", "v": "abc"}, {"t": "none"}, {"t": "list", "v": [1, 2]}, {"t": "obj"}])

    def canon(self, v, st):
        return int(v)

    def in_domain(self, g, st):
        return isinstance(g, int)


class Shape(Kind):
    def __init__(self, as_tuple):
        self.as_tuple = as_tuple

    def valid(self, rng, st):
        v = [rng.choice([2, 3, 4, 5]), rng.choice([2, 3, 4, 6])]
        return rng.choice([{"t": "tuple", "v": v}, {"t": "list", "v": v}, A(v, "C", "i8"), A(v, "ro", "i8")])

    def invalid(self, rng, st):
        return rng.choice([{"t": "s", "v": "abc"}, {"t": "none"}, {"t": "list", "v": [2]}, {"t": "tuple", "v": [2, 3, 4]}, {"t": "obj"}, {"t": "i", "v": 3}])

    def canon(self, v, st):
        return tuple(int(x) for x in v) if self.as_tuple else np.array([int(x) for x in v])

    def in_domain(self, g, st):
        if self.as_tuple:
            return isinstance(g, tuple) and len(g) == 2 and all(isinstance(x, int) for x in g)
        return isinstance(g, np.ndarray) and g.dtype.kind == "i" and g.shape == (2,)


class Date(Kind):
    def valid(self, rng, st):
        d = datetime.datetime(rng.choice([1995, 2003, 2020]), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59))
        k = rng.random()
        if k < 0.4:
            return {"t": "dt", "v": d.isoformat()}
        if k < 0.8:
            return {"t": "s", "v": d.strftime("%Y-%m-%dT%H:%M:%SZ")}
        return {"t": "s", "v": d.strftime(rng.choice(["%Y-%m-%d", "%Y/%m/%d"]))}

    def invalid(self, rng, st):
        return rng.choice([{"t": "s", "v": "not a date"}, {"t": "none"}, {"t": "i", "v": 5}, {"t": "obj"}, {"t": "s", "v": "2020-13-40T00:00:00Z"}])

    def canon(self, v, st):
        if isinstance(v, datetime.datetime):
            return v
        if len(v) == 10:
            return datetime.datetime.strptime(v.replace("-", "/"), "%Y/%m/%d")
        return datetime.datetime.strptime(v, "%Y-%m-%dT%H:%M:%SZ")

    def in_domain(self, g, st):
        return isinstance(g, datetime.datetime)


class Data(Kind):
    arrayish = True

    def valid(self, rng, st):
        n = int(np.prod(st.get("shape", (4, 3)))) if st else 12
        v = [rnd3(rng.uniform(-5, 5)) if rng.random() > 0.1 else 0.0 for _ in range(n)]
        return A(v, rng.choice(["C", "step", "neg", "ro"]), rng.choice(["f8", "f8", "f4"]))

    def invalid(self, rng, st):
        return rng.choice([{"t": "s", "v": "abc"}, {"t": "list", "v": [[1.0], [2.0, 3.0]]}, {"t": "obj"}, {"t": "list", "v": ["a", "b"]}])

    def canon(self, v, st):
        return np.array(v, dtype=float)

    def in_domain(self, g, st):
        return isinstance(g, np.ndarray) and g.dtype.kind == "f"


class DepthBottom(Num):
    def valid(self, rng, st):
        return scalar_forms(rng, rnd3(float(st["depth_top"]) + rng.choice([0.0, 1.0, 500.0, 1e4]) + rng.uniform(0, 100)) + 1e-3)

    def invalid(self, rng, st):
        c = list(BAD_NUMBERS) + [F(-1.0)]
        if float(st["depth_top"]) > 0:
            c += [F(float(st["depth_top"]) * 0.5), F(float(st["depth_top"]) - 1e-3)] * 3
        return rng.choice(c)

    def in_domain(self, g, st):
        return isnum(g) and g >= 0


# ---------------------------------------------------------------- argument kinds of methods and functions
def pts(rng, n, scale=None, z=None):
    """Points around the origin: mostly near the source, sometimes very near, far, or of mixed distance."""
    out = []
    if scale is None:
        scale = rng.choice([40.0] * 8 + [1.0, 0.02, 3e3, 2e5, "mixed", "mixed"])
    mixed = scale == "mixed"
    for _ in range(n):
        if mixed:
            scale = rng.choice([0.02, 1.0, 40.0, 40.0, 3e3, 2e5])
        p = [rnd3(rng.uniform(-scale, scale)) for _ in range(3)]
        if z == "<=0":
            p[2] = -abs(p[2])
        elif z == ">=0":
            p[2] = abs(p[2])
        out.append(p)
    return out


def special_points(rng, st, n, z=None, dim=3, special=None):
    """Ordinary points mixed with points on, along, inside and on the boundary of the source."""
    anchors, radius, axes = [], None, [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]]
    for p, v in st.items():
        if isinstance(v, np.ndarray) and v.dtype.kind == "f":
            if v.shape == (3,) and p in ("location", "location_a", "location_b", "min_location", "max_location"):
                anchors.append(v.tolist())
            elif p == "nodes":
                anchors += v.tolist()
            elif p in ("orientation", "primary_field", "magnetization") and np.any(v):
                axes.append((v / np.linalg.norm(v)).tolist())
    if "radius" in st:
        radius = float(st["radius"])
    anchors = anchors or [[0.0, 0.0, 0.0]]
    out = []
    if n > 1 and rng.random() < 0.2:
        return [_side(q, z)[:dim] for q in arranged(rng, rng.choice(anchors), n)]
    special = rng.choice([0.0, 0.15, 0.4]) if special is None else special
    for _ in range(n):
        a = rng.choice(anchors)
        k = rng.random()
        if out and k < 0.06:
            p = list(rng.choice(out)) + [0.0] * (3 - dim)                 # the same point again, or nearly
            if rng.random() < 0.4:
                p[rng.randrange(dim)] += rng.choice([1e-2, 1e-3, 1e-4, 1e-6, 1e-9]) * rng.choice([1, -1, 0.5])
        elif rng.random() >= special:
            s = rng.choice([40.0, 40.0, 5.0, 1e4])
            p = [rnd3(rng.uniform(-s, s)) for _ in range(3)]
        elif k < 0.2:
            p = list(a)
        elif k < 0.5:
            t = rng.choice([1.0, -2.0, 0.5, 30.0, -7.5, 6e3])
            e = rng.choice(axes)
            p = [x + t * y for x, y in zip(a, e)]
        elif k < 0.7 and len(anchors) > 1:
            b = rng.choice(anchors)
            w = rng.choice([0.5, 0.25, 2.0, -1.0])
            p = [x + w * (y - x) for x, y in zip(a, b)] if rng.random() < 0.5 else [rng.choice([x, y]) for x, y in zip(a, b)]
        elif radius is not None:
            f = rng.choice([0.0, 0.3, 0.999, 1.0, 1.001, 2.0])
            e = rng.choice(axes)
            p = [x + f * radius * y for x, y in zip(a, e)]
        else:
            p = [x + rng.uniform(-1, 1) for x in a]
        out.append(_side([float(x) for x in p], z)[:dim])
    return out


def _side(p, z):
    if z == "<=0":
        p[2] = -abs(p[2])
    elif z == ">=0":
        p[2] = abs(p[2])
    return p


def arranged(rng, a, n):
    """Survey layouts: a circle (exactly or nearly of one radius), a line, a grid, mirrored pairs, a column, one height, one tiny cluster."""
    how = rng.choice(["circle", "circle", "line", "grid", "pairs", "column", "plane", "cluster"])
    s = rng.choice([5.0, 30.0, 30.0, 2e3])
    h = rng.choice([0.0, rnd3(rng.uniform(0.1, 20))])
    if how == "circle":
        e = rng.choice([0.0, 0.0, 1e-9, 1e-6, 1e-4, 5e-4])
        t = [rng.uniform(0, 6.28) for _ in range(n)]
        return [[a[0] + s * (1 + e * rng.uniform(-1, 1)) * math.cos(x), a[1] + s * (1 + e * rng.uniform(-1, 1)) * math.sin(x), h] for x in t]
    if how == "line":
        d = [rng.uniform(-1, 1) for _ in range(3)]
        return [[a[i] + s * (k + 1) / n * d[i] for i in range(3)] for k in range(n)]
    if how == "grid":
        m = max(1, int(n ** 0.5))
        return [[a[0] + s * (k % m - m / 2 + 0.25), a[1] + s * (k // m - m / 2 + 0.25), h] for k in range(n)]
    if how == "pairs":
        out = []
        while len(out) < n:
            q = [rng.uniform(-s, s) for _ in range(3)]
            out += [[a[i] + q[i] for i in range(3)], [a[i] - q[i] for i in range(3)]]
        return out[:n]
    if how == "column":
        x, y = a[0] + rng.choice([0.0, s]), a[1] + rng.uniform(-s, s)
        return [[x, y, s * (k + 1) / n] for k in range(n)]
    if how == "plane":
        return [[a[0] + rng.uniform(-s, s), a[1] + rng.uniform(-s, s), h] for _ in range(n)]
    e = rng.choice([1e-3, 1e-6, 1e-9])
    q = [a[i] + rng.uniform(-s, s) for i in range(3)]
    return [[x * (1 + e * rng.uniform(-1, 1)) for x in q] for _ in range(n)]


def npoints(rng):
    if rng.random() < 0.04:
        return rng.choice([17, 40, 64, 129, 300, 600, 1100, 2100])
    return rng.choice([1, 1, 2, 3, 3, 4, 5, 7])


def arg_xyz(rng, z=None, forms=("n3", "3", "grid", "tuple", "list", "int", "f32")):
    f = rng.choice(("n3",) * 5 + tuple(forms))
    if f == "3":
        return A(pts(rng, 1, z=z)[0], rng.choice(LAYS))
    if f == "grid":
        m, n = rng.choice([(2, 2), (2, 3), (3, 1)])
        return A([pts(rng, n, z=z) for _ in range(m)], rng.choice(LAYS))
    p = pts(rng, npoints(rng), z=z)
    if f == "tuple":
        return {"t": "tuple", "v": [A([q[i] for q in p], rng.choice(["C", "ro", "step"])) for i in range(3)]}
    if f == "list":
        return {"t": "list", "v": p}
    if f == "int":
        return A([[int(x) for x in q] for q in p], "C", "i8")
    if f == "f32":
        return A(p, "C", "f4")
    return A(p, rng.choice(LAYS))


def arg_xyz_bad(rng, z=None):
    c = [A([[1.0, 2.0]] * 2), A([1.0, 2.0, 3.0, 4.0]), {"t": "s", "v": "abc"}, {"t": "none"}, {"t": "list", "v": [[1.0], [2.0, 3.0]]}, F(1.0)]
    if z == "<=0":
        p = pts(rng, 3, z=z)
        p[1][2] = 5.0
        c += [A(p)] * 3
    if z == ">=0":
        p = pts(rng, 3, z=z)
        p[1][2] = -5.0
        c += [A(p)] * 3
    return rng.choice(c)


def _arr(rng, shape, lo=-3.0, hi=3.0, lays=None):
    v = np.array([rnd3(rng.uniform(lo, hi)) for _ in range(int(np.prod(shape)))]).reshape(shape).tolist()
    return A(v, rng.choice(lays or LAYS))


def _pos(rng, n, lo=1e-3, hi=1e3):
    return [rnd3(math.exp(rng.uniform(math.log(lo), math.log(hi)))) for _ in range(n)]


class M:
    """One method or property of a class: name, list of positional argument generators, keyword options."""

    def __init__(self, name, args=None, opts=None, prop=False, field=True):
        self.name, self.args, self.opts, self.prop, self.field = name, args or [], opts or {}, prop, field


def xyz_m(*names, z=None, forms=None, opts=None):
    kw = {} if forms is None else {"forms": forms}
    return [M(n, [("xyz", z, kw)], opts) for n in names]


COORD = {"coordinates": ["cartesian", "cylindrical"]}
SFIELD = {"field": ["all", "total", "primary", "secondary"]}


def draw_arg(rng, a, bad=False):
    kind = a[0]
    if kind == "xyz":
        return arg_xyz_bad(rng, a[1]) if bad else arg_xyz(rng, a[1], **a[2])
    if kind == "xy":
        if bad:
            return rng.choice([A([[1.0]] * 3), A([1.0, 2.0, 3.0, 4.0]), {"t": "s", "v": "abc"}])
        d = rng.choice([2, 2, 3])
        if rng.random() < 0.2:
            return A([rnd3(rng.uniform(-50, 50)) for _ in range(d)], rng.choice(LAYS))
        return A([[rnd3(rng.uniform(-50, 50)) for _ in range(d)] for _ in range(npoints(rng))], rng.choice(LAYS))
    if kind == "num":
        return F(rnd3(rng.uniform(a[1], a[2])))
    if kind == "utm":
        n = npoints(rng)
        v = [[rnd3(rng.uniform(300000, 800000)), rnd3(rng.uniform(1e6, 8e6))] for _ in range(n)]
        return {"t": "list", "v": v} if rng.random() < 0.7 else {"t": "list", "v": [{"t": "arr", "v": r, "dt": "f8"} for r in v]}
    raise ValueError(a)


def draw_args(rng, m, bad=False):
    """Positional and keyword arguments for one call of method m."""
    out = []
    for i, a in enumerate(m.args):
        if a[0] == "samexyz":
            n = len(out[0]["v"]) if out[0]["t"] == "arr" and isinstance(out[0]["v"][0], list) else 1
            out.append(A(pts(rng, n, z=a[1]), rng.choice(LAYS)))
        else:
            out.append(draw_arg(rng, a, bad and i == 0))
    kw = {}
    for k, vals in m.opts.items():
        if rng.random() < 0.6:
            v = rng.choice(vals)
            kw[k] = {"t": "none"} if v is None else {"t": "s", "v": v} if isinstance(v, str) else F(v)
    return out, kw


# ---------------------------------------------------------------- classes
class Cls:
    def __init__(self, path, params, methods, required=(), aliases=None, views=None, ctor=None, groups=(), props=()):
        self.path = path
        self.name = path.split("geoana.", 1)[1]
        self.params = params                 # primary parameter -> Kind, in canonical order of assignment
        self.methods = methods
        self.required = required             # constructor arguments without defaults
        self.aliases = aliases or {}         # alias -> (primary, kind, convert(value, state))
        self.views = views or {}             # read-only view -> expected(state)
        self.ctor = ctor                     # constructor arguments other than the primaries: {ctor name: (primary, from canonical)}
        self.groups = groups                 # parameters that must be re-assigned together, in order
        self.props = props                   # derived properties evaluated like fields

    def resolve(self):
        import importlib
        m, c = self.path.rsplit(".", 1)
        return getattr(importlib.import_module(m), c)


SIG = Num(0.0, True, ranges=((1e-4, 10.0),), edge=(1e-8, 1e6, 1.0))
MU = Num(0.0, True, ranges=((1e-6, 1e-5),), edge=(MU0, 1e-7))
EPS = Num(0.0, False, ranges=((1e-12, 1e-10),), edge=(EPS0, 0.0))
ANY = Num(ranges=((1e-2, 1e3),), edge=(0.0, -1.0, 1.0), sign=True)
POS = Num(0.0, True, ranges=((1e-2, 50.0),), edge=(1.0,))
NONNEG = Num(0.0, False, ranges=((0.5, 50.0),), edge=(1.0,))
RAD0 = Num(0.0, False, ranges=((0.5, 50.0),), edge=(1.0, 0.0))
RHO_ALIAS = ("sigma", Num(0.0, True, ranges=((0.1, 1e4),), edge=(1.0,)), lambda v, st: 1.0 / float(v))
EM = {"sigma": SIG, "mu": MU, "epsilon": EPS}
LOC = Vec()
ORI = Orient()
FREQ = Samples(1e-1, 1e5)
FREQ1 = Samples(1e-1, 1e5, dims=(1,))
TIME = Samples(1e-6, 1e-1)
DIP = {"location": LOC, "orientation": ORI}
RHO_VIEW = {"rho": lambda st: 1 / st["sigma"]}
FD_VIEW = dict(RHO_VIEW, omega=lambda st: 2 * np.pi * st["frequency"])
DIST_M = [M("vector_distance", [("xyz", None, {"forms": ("n3", "3", "grid", "list")})]), M("distance", [("xyz", None, {"forms": ("n3", "3", "list")})]),
          M("dot_orientation", [("xyz", None, {"forms": ("n3", "3", "list")})]), M("cross_orientation", [("xyz", None, {"forms": ("n3", "3", "list")})])]
FD_PROPS = ["wavenumber", "skin_depth", "sigma_hat", "omega"]
TD_PROPS = ["diffusion_distance", "theta"]
PT = [M("peak_time", [("num", 1.0, 50.0)])]

PRISM_MIN = Vec(scale=5.0, centre=[-10.0, -10.0, -20.0])
PRISM_MAX = Vec(scale=5.0, centre=[5.0, 5.0, -2.0])
PRISMS = ("gravity.Prism", "em.static.MagneticPrism")
PRISM_VIEWS = {"volume": lambda st: np.prod(st["max_location"] - st["min_location"]),
               "location": lambda st: 0.5 * (st["min_location"] + st["max_location"])}

UTM2 = Vec(2, scale=1000.0, centre=[706216.0, 4269239.0])
CLASSES = [
    Cls("geoana.em.fdem.ElectricDipoleWholeSpace",
        {"frequency": FREQ, "quasistatic": Bool(), "length": POS, "current": ANY, **EM, **DIP},
        xyz_m("vector_potential", "electric_field", "current_density", "magnetic_field", "magnetic_flux_density") + DIST_M,
        ("frequency",), {"rho": RHO_ALIAS}, FD_VIEW, props=FD_PROPS),
    Cls("geoana.em.fdem.MagneticDipoleWholeSpace",
        {"frequency": FREQ, "quasistatic": Bool(), "moment": ANY, **EM, **DIP},
        xyz_m("vector_potential", "electric_field", "current_density", "magnetic_field", "magnetic_flux_density") + DIST_M,
        ("frequency",), {"rho": RHO_ALIAS}, FD_VIEW, props=FD_PROPS),
    Cls("geoana.em.fdem.HarmonicPlaneWave",
        {"frequency": FREQ, "quasistatic": Bool(), "amplitude": ANY, **EM, "orientation": Orient(True)},
        xyz_m("electric_field", "current_density", "magnetic_field", "magnetic_flux_density"),
        ("frequency",), {"rho": RHO_ALIAS}, FD_VIEW, props=FD_PROPS),
    Cls("geoana.em.fdem.MagneticDipoleHalfSpace",
        {"frequency": FREQ1, "quasistatic": Bool(), "moment": ANY, **EM, "location": Vec(zrule="0"), "orientation": ORI},
        [M("magnetic_field", [("xy",)], {"field": ["secondary", "total"]})],
        ("frequency",), {"rho": RHO_ALIAS}, FD_VIEW, props=FD_PROPS),
    Cls("geoana.em.fdem.MagneticDipoleLayeredHalfSpace",
        {"frequency": Samples(1e-1, 1e5, as1d=True), "thickness": Thick(), "quasistatic": Bool(), "moment": ANY,
         "sigma": LayerProp(1e-4, 10.0, 0.0, True), "mu": LayerProp(2e-6, 1e-5, MU0, False), "epsilon": LayerProp(1e-11, 1e-10, EPS0, False),
         "location": Vec(zrule=">=0"), "orientation": ORI},
        [M("magnetic_field", [("xyz", ">=0", {"forms": ("n3",)})], {"field": ["secondary", "total"]})],
        ("frequency", "thickness"), {"rho": RHO_ALIAS}, {"rho": lambda st: 1 / st["sigma"], "omega": lambda st: 2 * np.pi * st["frequency"]},
        groups=("frequency", "thickness", "sigma", "mu", "epsilon"), props=["omega", "sigma_hat"]),
    Cls("geoana.em.tdem.ElectricDipoleWholeSpace",
        {"time": TIME, "length": POS, "current": ANY, **EM, **DIP},
        xyz_m("vector_potential", "electric_field", "current_density", "magnetic_field", "magnetic_field_time_deriv",
              "magnetic_flux_density", "magnetic_flux_density_time_deriv") + DIST_M + PT,
        ("time",), {"rho": RHO_ALIAS}, RHO_VIEW, props=TD_PROPS),
    Cls("geoana.em.tdem.TransientPlaneWave",
        {"time": TIME, "amplitude": ANY, **EM, "orientation": Orient(True)},
        xyz_m("electric_field", "current_density", "magnetic_field", "magnetic_flux_density") + PT,
        ("time",), {"rho": RHO_ALIAS}, RHO_VIEW, props=TD_PROPS),
    Cls("geoana.em.tdem.VerticalMagneticDipoleHalfSpace",
        {"time": TIME, "moment": ANY, **EM, **DIP},
        [M(n, [("xy",)]) for n in ("magnetic_field", "magnetic_flux_density", "magnetic_field_time_derivative", "magnetic_flux_time_derivative")] + PT,
        ("time",), {"rho": RHO_ALIAS}, RHO_VIEW, props=TD_PROPS),
    Cls("geoana.em.static.MagneticDipoleWholeSpace", {"moment": ANY, **EM, **DIP},
        xyz_m("vector_potential", "magnetic_flux_density", "magnetic_field", opts=COORD) + DIST_M, (), {"rho": RHO_ALIAS}, RHO_VIEW),
    Cls("geoana.em.static.MagneticPoleWholeSpace", {"moment": ANY, **EM, **DIP},
        xyz_m("magnetic_flux_density", "magnetic_field", opts=COORD), (), {"rho": RHO_ALIAS}, RHO_VIEW),
    Cls("geoana.em.static.CircularLoopWholeSpace", {"radius": POS, "current": ANY, **EM, **DIP},
        xyz_m("vector_potential", "magnetic_flux_density", "magnetic_field", opts=COORD) + DIST_M, (), {"rho": RHO_ALIAS}, RHO_VIEW),
    Cls("geoana.em.static.LineCurrentWholeSpace", {"nodes": Nodes(), "current": ANY, **EM},
        xyz_m("scalar_potential", "vector_potential", "magnetic_field", "magnetic_flux_density", "electric_field", "current_density"),
        ("nodes",), {"rho": RHO_ALIAS}, dict(RHO_VIEW, n_segments=lambda st: st["nodes"].shape[0] - 1)),
    Cls("geoana.em.static.PointCurrentWholeSpace", {"sigma": SIG, "mu": MU, "epsilon": EPS, "current": ANY, "nodes": Nodes(True)},
        xyz_m("potential", "electric_field", "current_density", "scalar_potential", "vector_potential", "magnetic_field", "magnetic_flux_density"),
        ("rho",), {"rho": RHO_ALIAS, "location": ("nodes", LOC, lambda v, st: np.atleast_2d(np.array(v, dtype=float)))},
        dict(RHO_VIEW, location=lambda st: st["nodes"][0], n_segments=lambda st: st["nodes"].shape[0] - 1), ctor=("rho", "current", "location")),
    Cls("geoana.em.static.PointCurrentHalfSpace", {"rho": POS, "current": ANY, "location": Vec(zrule="<=0")},
        xyz_m("potential", "electric_field", "current_density", z="<=0"), ("rho",)),
    Cls("geoana.em.static.DipoleHalfSpace", {"rho": POS, "location_a": Vec(zrule="<=0"), "location_b": Vec(zrule="<=0"), "current": ANY},
        [M(n, [("xyz", "<=0", {"forms": ("n3",)}), ]) for n in ("potential", "electric_field", "current_density")] +
        [M(n, [("xyz", "<=0", {"forms": ("n3",)}), ("samexyz", "<=0")]) for n in ("potential", "electric_field", "current_density")], ("rho",)),
    Cls("geoana.em.static.ElectrostaticSphere",
        {"radius": RAD0, "sigma_sphere": SIG, "sigma_background": SIG, "primary_field": LOC, "location": LOC},
        xyz_m("potential", "electric_field", "current_density", opts=SFIELD) + [M("charge_density", [("xyz", None, {})], {"dr": [None, 2.0, 15.0]})],
        ("radius", "sigma_sphere", "sigma_background")),
    Cls("geoana.em.static.MagnetostaticSphere",
        {"radius": RAD0, "mu_sphere": MU, "mu_background": MU, "primary_field": LOC, "location": LOC},
        xyz_m("potential", "magnetic_field", "magnetic_flux_density", opts=SFIELD), ("radius", "mu_sphere", "mu_background")),
    Cls("geoana.em.static.MagneticPrism", {"min_location": PRISM_MIN, "max_location": PRISM_MAX, "magnetization": LOC},
        xyz_m("scalar_potential", "magnetic_field", "magnetic_flux_density", "magnetic_field_gradient"),
        ("min_location", "max_location"), {}, dict(PRISM_VIEWS, moment=lambda st: np.prod(st["max_location"] - st["min_location"]) * st["magnetization"]),
        props=["location", "moment", "volume"]),
    Cls("geoana.gravity.PointMass", {"mass": ANY, "location": LOC},
        xyz_m("gravitational_potential", "gravitational_field", "gravitational_gradient")),
    Cls("geoana.gravity.Sphere", {"radius": NONNEG, "rho": ANY, "location": LOC},
        xyz_m("gravitational_potential", "gravitational_field", "gravitational_gradient"), ("radius", "rho"),
        {"mass": ("rho", ANY, lambda v, st: float(v) * 3 / (4 * np.pi * st["radius"] ** 3))},
        {"mass": lambda st: 4 / 3 * np.pi * st["radius"] ** 3 * st["rho"]}),
    Cls("geoana.gravity.Prism", {"min_location": PRISM_MIN, "max_location": PRISM_MAX, "rho": ANY},
        xyz_m("gravitational_potential", "gravitational_field", "gravitational_gradient"), ("min_location", "max_location"), {},
        dict(PRISM_VIEWS, mass=lambda st: np.prod(st["max_location"] - st["min_location"]) * st["rho"]), props=["location", "mass", "volume"]),
    Cls("geoana.earthquake.oksar.Oksar",
        {"O": UTM2, "U": Vec(2, scale=500.0, centre=[8000.0, 0.0]), "V": Vec(2, scale=500.0, centre=[0.0, 8000.0]), "center": UTM2,
         "depth_top": Num(0.0, ranges=((1.0, 5000.0),), edge=(0.0,)), "depth_bottom": DepthBottom(0.0),
         "strike": Num(0.0, hi=360.0, ranges=((0.0, 360.0),), edge=(0.0, 360.0)), "dip": Num(0.0, hi=90.0, ranges=((1.0, 90.0),), edge=(0.0, 90.0)),
         "rake": Num(-180.0, hi=180.0, ranges=((-180.0, 180.0),), edge=(-180.0, 180.0)), "slip": Num(0.0, ranges=((0.1, 5.0),), edge=(0.0,)),
         "length": Num(0.0, ranges=((100.0, 1e4),), edge=(0.0,)), "beta": Num(ranges=((1e10, 5e10),)), "mu": Num(ranges=((1e10, 5e10),)),
         "shape": Shape(False)},
        [], ("O", "U", "V", "center", "depth_top"), props=["simulation_grid", "displacement_vector"]),
    Cls("geoana.earthquake.oksar.EarthquakeInterferogram",
        {"shape": Shape(True), "data": Data(), "title": Str(), "location": UTM2, "location_UTM_zone": IntK(), "pixel_size": Vec(2, scale=10.0, centre=[80.0, 80.0]),
         "ref": UTM2, "ref_incidence": Num(ranges=((10.0, 40.0),)), "satellite_azimuth": Num(ranges=((100.0, 300.0),)),
         "satellite_altitude": Num(ranges=((5e5, 9e5),)), "processed_by": Str(), "scaling": Num(ranges=((1e-3, 10.0),)),
         "satellite_fringe_interval": Num(ranges=((0.01, 0.1),)), "local_earth_radius": Num(ranges=((6.3e6, 6.4e6),)), "local_rigidity": Num(ranges=((1e10, 5e10),)),
         "description": Str(), "event_name": Str(), "event_country": Str(), "copyright": Str(), "data_source": Str(), "satellite_name": Str(),
         "event_gcmt_id": Str(), "date1": Date(), "date2": Date(), "processed_date": Date(), "event_date": Date()},
        [M("get_LOS_vector", [("utm",)])],
        ("data", "title", "location", "location_UTM_zone", "shape", "pixel_size", "ref", "ref_incidence", "satellite_azimuth", "satellite_altitude", "processed_by")),
]
BY_NAME = {c.name: c for c in CLASSES}

DEFAULTS = {   # parameter values when a constructor argument is left out (as documented)
    "sigma": 1.0, "mu": MU0, "epsilon": EPS0, "quasistatic": False, "moment": 1.0, "current": 1.0, "length": 1.0, "amplitude": 1.0,
    "location": np.zeros(3), "orientation": np.array([1.0, 0, 0]), "radius": math.sqrt(1 / math.pi),
}
DEFAULTS_BY = {
    ("em.static.DipoleHalfSpace", "location_a"): np.array([-1.0, 0, 0]), ("em.static.DipoleHalfSpace", "location_b"): np.array([1.0, 0, 0]),
    ("em.static.PointCurrentWholeSpace", "nodes"): np.zeros((1, 3)),
    ("em.static.ElectrostaticSphere", "primary_field"): np.array([1.0, 0, 0]), ("em.static.MagnetostaticSphere", "primary_field"): np.array([1.0, 0, 0]),
    ("em.static.MagneticPrism", "magnetization"): np.array([0.0, 0, 1.0]), ("gravity.PointMass", "mass"): 1.0, ("gravity.Prism", "rho"): 1.0,
    ("earthquake.oksar.Oksar", "depth_bottom"): 1e4, ("earthquake.oksar.Oksar", "strike"): 0.0, ("earthquake.oksar.Oksar", "dip"): 45.0,
    ("earthquake.oksar.Oksar", "rake"): 90.0, ("earthquake.oksar.Oksar", "slip"): 0.5, ("earthquake.oksar.Oksar", "length"): 1e4,
    ("earthquake.oksar.Oksar", "beta"): 3e10, ("earthquake.oksar.Oksar", "mu"): 3e10, ("earthquake.oksar.Oksar", "shape"): np.array([300, 300]),
    ("earthquake.oksar.EarthquakeInterferogram", "scaling"): 1.0, ("earthquake.oksar.EarthquakeInterferogram", "satellite_fringe_interval"): 0.028333,
    ("earthquake.oksar.EarthquakeInterferogram", "local_earth_radius"): 6371000.0, ("earthquake.oksar.EarthquakeInterferogram", "local_rigidity"): 3e10,
}
ABSENT = "<absent>"      # an optional attribute that was never assigned


def default_of(cls, p):
    if (cls.name, p) in DEFAULTS_BY:
        return DEFAULTS_BY[(cls.name, p)]
    if cls.name == "em.fdem.MagneticDipoleLayeredHalfSpace" and p in ("sigma", "mu", "epsilon"):
        return None      # depends on the number of layers; see state_after_ctor
    if cls.name == "earthquake.oksar.EarthquakeInterferogram":
        return ABSENT
    return DEFAULTS[p]


def state_after_ctor(cls, kw):
    """Canonical state of a new object built with keyword values kw (plain Python values)."""
    st = {}
    given = dict(kw)
    for p, kind in cls.params.items():
        al = [a for a, (prim, _, _) in cls.aliases.items() if prim == p and a in given and cls.ctor]
        if al:
            st[p] = cls.params[p].canon(cls.aliases[al[0]][2](given[al[0]], st), st)
        elif p in given and given[p] is None and p == "thickness":
            st[p] = np.array([])
        elif p in given and given[p] is not None:
            st[p] = kind.canon(given[p], st)
        else:
            d = default_of(cls, p)
            if d is None:
                d = {"sigma": 1.0, "mu": MU0, "epsilon": EPS0}[p] * (np.ones(len(st["thickness"]) + 1) + 0j)
            st[p] = d.copy() if isinstance(d, np.ndarray) else d
    return st


def apply_set(cls, st, name, v):
    """State after a successful assignment (st is not changed)."""
    st = dict(st)
    if name in cls.params:
        st[name] = cls.params[name].canon(v, st)
    else:
        prim, kind, conv = cls.aliases[name]
        c = conv(v, st)
        st[prim] = cls.params[prim].canon(c, st)
    return st


def kind_of(cls, name):
    return cls.params[name] if name in cls.params else cls.aliases[name][1]


def settable(cls):
    return list(cls.params) + list(cls.aliases)


def build_args(cls, st):
    """(constructor keywords, later assignments) that create a fresh object in canonical state st."""
    kw, later = {}, []
    if cls.ctor:                                  # PointCurrentWholeSpace(rho, current, location)
        kw = {"rho": 1.0 / st["sigma"], "current": st["current"], "location": st["nodes"][0]}
        later = [("sigma", st["sigma"]), ("mu", st["mu"]), ("epsilon", st["epsilon"])]
        if st["nodes"].shape[0] > 1:
            later.append(("nodes", st["nodes"]))
        return kw, later
    for p in cls.params:
        v = st[p]
        if isinstance(v, str) and v == ABSENT:
            continue
        kw[p] = v
    if cls.name == "earthquake.oksar.Oksar" and st["depth_bottom"] < st["depth_top"]:
        later.append(("depth_top", kw["depth_top"]))
        kw["depth_top"] = 0.0
    if cls.groups:                                # 2-d arrays etc. are accepted by the constructor as they are
        pass
    return kw, later


# ---------------------------------------------------------------- functions
class Fn:
    def __init__(self, path, gen, alias_ok=False):
        self.path, self.gen, self.alias_ok = path, gen, alias_ok
        self.name = path.split("geoana.", 1)[1]

    def resolve(self):
        import importlib
        m, c = self.path.rsplit(".", 1)
        return getattr(importlib.import_module(m), c)


def _g_grid(rng):
    d = rng.choice([3, 3, 3, 2])
    n = npoints(rng)
    g = _arr(rng, (n, d))
    if rng.random() < 0.5:
        return [g], {}
    return [g, _arr(rng, (n, d))], {}


def _g_grid3(rng):
    n = npoints(rng)
    g = _arr(rng, (n, 3))
    return ([g], {}) if rng.random() < 0.5 else ([g, _arr(rng, (n, 3))], {})


def _g_prism(rng):
    n = rng.choice([1, 3, 4, 6])
    return [_arr(rng, (n,), 0.2, 9) if rng.random() < 0.5 else _arr(rng, (n,), -9, 9) for _ in range(3)], {}


def _g_rte(rng):
    nl, nf, nw = rng.choice([1, 2, 2, 3, 3, 4, 4, 5, 9]), rng.choice([1, 2, 3]), rng.choice([1, 2, 4])
    if rng.random() < 0.04:
        nl, nf, nw = rng.choice([(70, 1, 1), (33, 2, 2), (2, 1, 101), (1, 9, 3), (2, 20, 5)])
    sig = [_pos(rng, nf, 1e-3, 10) for _ in range(nl)]
    mu = [_pos(rng, nf, 1.3e-6, 4e-6) for _ in range(nl)]
    cl = ["C", "C", "F", "F", "ro", "step", "cols"]
    s = {"t": "carr", "re": sig, "im": [[rnd3(rng.uniform(0, 0.1)) for _ in r] for r in sig], "lay": rng.choice(cl)} if rng.random() < 0.6 else A(sig, rng.choice(cl))
    m = {"t": "carr", "re": mu, "im": [[0.0 for _ in r] for r in mu], "lay": rng.choice(cl)} if rng.random() < 0.6 else A(mu, rng.choice(cl))
    hs = rng.choice([30.0, 30.0, 30.0, 0.01, 2e3])
    th = A([rng.choice([0.0, hs]) if rng.random() < 0.05 else rnd3(rng.uniform(hs / 30, hs)) for _ in range(nl - 1)], rng.choice(["C", "ro", "step"])) if nl > 1 else {"t": "arr", "v": [], "dt": "f8"}
    return [A(_pos(rng, nf, 0.1, 1e4), rng.choice(["C", "ro", "step"])), A(_pos(rng, nw, 1e-3, 1), rng.choice(["C", "ro", "step"])), s, m, th], {}


def _g_fd_loop(rng):
    kw = {"sigma": F(_pos(rng, 1, 1e-3, 1)[0]), "radius": F(_pos(rng, 1, 1, 50)[0])}
    if rng.random() < 0.5:
        kw["secondary"] = {"t": "b", "v": rng.random() < 0.5}
    if rng.random() < 0.3:
        kw["turns"] = {"t": "i", "v": 3}
    return [A(_pos(rng, rng.choice([1, 2, 3]), 1, 1e4), rng.choice(LAYS))], kw


def _g_td_loop(rng):
    kw = {"sigma": F(_pos(rng, 1, 1e-3, 1)[0]), "radius": F(_pos(rng, 1, 1, 50)[0])}
    return [A(_pos(rng, rng.choice([1, 2, 3]), 1e-6, 1e-2), rng.choice(LAYS))], kw


def _g_td_dip(rng):
    return [A(_pos(rng, rng.choice([1, 2, 3]), 1e-6, 1e-2), rng.choice(LAYS)), draw_xy2(rng)], {"sigma": F(_pos(rng, 1, 1e-3, 1)[0])}


def draw_xy2(rng):
    return A([[rnd3(rng.uniform(1, 50)), rnd3(rng.uniform(1, 50))] for _ in range(npoints(rng))], rng.choice(LAYS))


def _g_freq4(rng):
    f = A(_pos(rng, rng.choice([1, 3, 4]), 1, 1e4), rng.choice(LAYS)) if rng.random() < 0.8 else F(_pos(rng, 1, 1, 1e4)[0])
    s = A(_pos(rng, len(f["v"]), 1e-3, 1), rng.choice(LAYS)) if f["t"] == "arr" and rng.random() < 0.3 else F(_pos(rng, 1, 1e-3, 1)[0])
    return [f, s], ({"quasistatic": {"t": "b", "v": rng.random() < 0.5}} if rng.random() < 0.5 else {})


def _pair(rng):
    """Two directions: unrelated, along the axes, equal, opposite, nearly so, or of very different length."""
    v, w = _arr(rng, (3,)), _arr(rng, (3,))
    if rng.random() < 0.5:
        x = [0.0, 0.0, 0.0]
        x[rng.randrange(3)] = rng.choice([1.0, 1.0, -1.0, 2.0])
        v = A(x)
    k = rng.random()
    if k < 0.2:
        w = A([-x for x in v["v"]])
    elif k < 0.4:
        w = A(list(v["v"]))
    elif k < 0.5:
        e = rng.choice([1e-3, 1e-7, 1e-12])
        w = A([rng.choice([1.0, -1.0, 3.0]) * x + e * rng.uniform(-1, 1) for x in v["v"]])
    elif k < 0.65:
        x = [0.0, 0.0, 0.0]
        x[rng.randrange(3)] = rng.choice([1.0, -1.0])
        w = A(x)
    return v, w


def _g_rot(rng):
    kw = {} if rng.random() < 0.6 else {"as_matrix": {"t": "b", "v": False}}
    return list(_pair(rng)), kw


def _g_ref(rng):
    return [F(_pos(rng, 1, 0.1, 10)[0]), F(_pos(rng, 1, 1e-3, 0.1)[0]), A(_pos(rng, rng.choice([1, 3]), 1, 60), rng.choice(LAYS)) if rng.random() < 0.8 else F(_pos(rng, 1, 1, 60)[0])]


def _g_ndgrid(rng):
    n = rng.choice([2, 3])
    return [_arr(rng, (rng.choice([2, 3, 4]),)) for _ in range(n)], ({"vector": {"t": "b", "v": rng.random() < 0.5}} if rng.random() < 0.5 else {})


FUNCS = [Fn("geoana.spatial." + n, _g_grid) for n in ("cylindrical_to_cartesian", "cartesian_to_cylindrical")] + \
    [Fn("geoana.spatial." + n, _g_grid3) for n in ("spherical_to_cartesian", "cartesian_to_spherical", "cylindrical_2_cartesian", "cartesian_2_cylindrical",
                                                  "spherical_2_cartesian", "cartesian_2_spherical")] + [
    Fn("geoana.spatial.vector_magnitude", lambda r: ([_arr(r, (npoints(r), 3))], {})),
    Fn("geoana.spatial.vector_distance", lambda r: ([_arr(r, (npoints(r), 3))] + ([_arr(r, (3,))] if r.random() < 0.6 else []), {})),
    Fn("geoana.spatial.distance", lambda r: ([_arr(r, (npoints(r), 3))] + ([_arr(r, (3,))] if r.random() < 0.6 else []), {})),
    Fn("geoana.spatial.vector_dot", lambda r: ([_arr(r, (npoints(r), 3)), _arr(r, (3,))], {})),
    Fn("geoana.spatial.repeat_scalar", lambda r: ([_arr(r, (npoints(r),))], {})),
    Fn("geoana.spatial.rotation_matrix_from_normals", _g_rot),
    Fn("geoana.spatial.rotate_points_from_normals", lambda r: ([_arr(r, (npoints(r), 3)), *_pair(r)] + ([_arr(r, (3,))] if r.random() < 0.6 else []), {})),
    Fn("geoana.kernels.rTE_forward", _g_rte), Fn("geoana.kernels.rTE_gradient", _g_rte),
    Fn("geoana.em.fdem.omega", lambda r: ([A(_pos(r, 3, 1, 1e4), r.choice(LAYS))], {})),
    Fn("geoana.em.fdem.wavenumber", _g_freq4), Fn("geoana.em.fdem.skin_depth", _g_freq4), Fn("geoana.em.fdem.sigma_hat", _g_freq4, alias_ok=True),
    Fn("geoana.em.tdem.reference.hp_from_vert_4_72", lambda r: (_g_ref(r)[:3], {})), Fn("geoana.em.tdem.reference.hz_from_vert_4_69a", lambda r: (_g_ref(r)[:3], {})),
    Fn("geoana.em.tdem.reference.dhp_from_vert_4_74", lambda r: (_g_ref(r)[:3] + [F(_pos(r, 1, 1e-6, 1e-2)[0])], {})),
    Fn("geoana.em.tdem.reference.dhz_from_vert_4_70", lambda r: (_g_ref(r)[:3] + [F(_pos(r, 1, 1e-3, 1)[0]), F(1.3e-6)], {})),
    Fn("geoana.em.tdem.peak_time", lambda r: ([A(_pos(r, 3, 1, 100), r.choice(LAYS)), F(_pos(r, 1, 1e-3, 1)[0])], {})),
    Fn("geoana.em.tdem.diffusion_distance", lambda r: ([A(_pos(r, 3, 1e-6, 1e-2), r.choice(LAYS)), F(_pos(r, 1, 1e-3, 1)[0])], {})),
    Fn("geoana.em.tdem.theta", lambda r: ([A(_pos(r, 3, 1e-6, 1e-2), r.choice(LAYS)), F(_pos(r, 1, 1e-3, 1)[0])], {})),
    Fn("geoana.em.fdem.simple_functions.vertical_magnetic_field_horizontal_loop", _g_fd_loop),
    Fn("geoana.em.fdem.simple_functions.vertical_magnetic_flux_horizontal_loop", _g_fd_loop),
] + [Fn("geoana.kernels.prism_" + n, _g_prism) for n in ("f", "fz", "fzz", "fzx", "fzy", "fzzz", "fxxy", "fxxz", "fxyz")] + \
    [Fn("geoana.em.tdem.simple_functions.vertical_magnetic_%s_horizontal_loop" % n, _g_td_loop) for n in ("field", "flux", "field_time_deriv", "flux_time_deriv")] + \
    [Fn("geoana.em.tdem.simple_functions." + n, _g_td_dip) for n in ("magnetic_field_vertical_magnetic_dipole", "magnetic_field_time_deriv_magnetic_dipole",
                                                                   "magnetic_flux_vertical_magnetic_dipole", "magnetic_flux_time_deriv_magnetic_dipole")] + [
    Fn("geoana.utils.mkvc", lambda r: ([_arr(r, (2, 3))], {"n_dims": {"t": "i", "v": r.choice([1, 2, 3])}})),
    Fn("geoana.utils.ndgrid", _g_ndgrid, alias_ok=True),
    Fn("geoana.utils.append_ndim", lambda r: ([_arr(r, (3,)), {"t": "i", "v": r.choice([0, 1, 2])}], {}), alias_ok=True),
    Fn("geoana.utils.check_xyz_dim", lambda r: ([arg_xyz(r)], {}), alias_ok=True),
]
FN_BY_NAME = {f.name: f for f in FUNCS}
HELPERS = [FN_BY_NAME["spatial." + n] for n in ("rotation_matrix_from_normals", "rotate_points_from_normals")] * 2     # drawn more often: used by the sources themselves
