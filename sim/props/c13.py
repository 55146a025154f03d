"""C13: plotting draws only where asked and survives failing disks."""
import builtins
import errno
import hashlib
import io
import json
import os
import resource
import shutil
import signal
import tempfile

import numpy as np

from .. import faults, gen, seq, spec, exe, glob as globstate
from ..forks import in_fork
from ..watch import Watch
from ..vals import attempt, ending, layout, fingerprint, brief

KIND = "full"
QUICK, THOROUGH = 1400, 40000
NEED = ["plots compared with a fresh process"]
RULE = ("one seed = one plotting session of 4-12 actions in one process: figures and axes made by the caller (managed by pyplot or not, with content of their own, others current), changed plotting defaults, plot2Ddata / "
        "plot_interferogram / plot_mask on given or new axes with shared option dictionaries, masks, shading, streamlines and both interpolators, calls that are rejected or interrupted, and saving to png/pdf/svg with a "
        "full disk, size limit, I/O error at a random byte, failing close or missing directory, followed by later saves; after every action all other figures, defaults, process-wide settings, dictionaries, data and source objects are "
        "compared with before, the drawing with the same call in a fresh process, and saved files are decoded in full; non-trivial = at least one drawing compared with a fresh process")
REAL = ["geoana's plotting code from /repo's working tree", "matplotlib with the Agg, PDF and SVG backends, PIL, scipy.interpolate", "file size limit and /dev/full: the operating system"]
STUB = ["disk: files opened for writing go through a simulated file that fails at a chosen byte", "caller"]
FMT = ["png", "png", "png", "pdf", "svg"]


# ---------------------------------------------------------------- generation
def make(seed, tier="quick"):
    g = gen.Gen(seed)
    rng = g.rng
    ops, axes, dicts, nfile = [], [], [], 0
    ops.append({"op": "rc", "v": {"figure.figsize": rng.choice([[2.0, 1.5], [1.6, 1.6]]), **rng.choice([{}, {"image.cmap": "jet"}, {"font.size": 7.0}, {"axes.grid": True}])}})
    for _ in range(rng.choice([0, 1, 2])):
        _fig(rng, ops, axes)
    files = []
    for _ in range(rng.randint(3, 8 if tier == "quick" else 14)):
        k = rng.random()
        if k < 0.15:
            _fig(rng, ops, axes)
        elif k < 0.22:
            ops.append({"op": "rc", "v": rng.choice([{"image.cmap": "gray"}, {"lines.linewidth": 3.0}, {"font.size": 5.0}, {"axes.facecolor": "red"}])})
        elif k < 0.28 and axes:
            ops.append({"op": "sca", "ax": rng.choice(axes)})
        elif k < 0.32 and axes:
            a = rng.choice(axes)
            f = a[0]
            ops.append({"op": "close", "fig": f})
            axes[:] = [x for x in axes if x[0] != f]
        elif k < 0.5:
            ops.append(_inter(rng, axes))
        else:
            op = _plot2d(rng, axes, dicts)
            if rng.random() < 0.35:
                fmt = rng.choice(FMT)
                if files and rng.random() < 0.6:
                    name = rng.choice(files)
                else:
                    name = "f%d.%s" % (nfile, fmt)
                    nfile += 1
                    files.append(name)
                op["file"] = name
                if rng.random() < 0.6:
                    op["disk"] = {"mode": rng.choice(["ENOSPC", "EIO", "limit", "close", "ENOENT", "EACCES", "EMFILE", "full", "short"]), "frac": round(rng.random() ** 2, 4)}
                    ops.append(op)
                    op = json.loads(json.dumps(op))          # and again when the disk works
                    del op["disk"]
            elif rng.random() < 0.12:
                op["fault"] = {"kind": "int", "frac": round(rng.random(), 4), "aim": rng.random() < 0.5}
            ops.append(op)
        if rng.random() < 0.2 and any(o["op"] == "plot" for o in ops):
            ops.append(json.loads(json.dumps(rng.choice([o for o in ops if o["op"] == "plot" and (o["ax"] is None or tuple(o["ax"]) in axes)] or [ops[-1]]))))
    return {"prop": "C13", "seed": seed, "ops": ops}


def _fig(rng, ops, axes):
    f = "g%d" % len(ops)
    n = rng.choice([1, 1, 2, 3])
    ops.append({"op": "fig", "id": f, "n": n, "managed": rng.random() < 0.7, "art": rng.choice(["none", "line", "image", "both"])})
    axes += [(f, i) for i in range(n)]


def _inter(rng, axes):
    n, m = rng.choice([(4, 3), (3, 5), (2, 2)])
    v = [spec.rnd3(rng.uniform(-5, 5)) if rng.random() > 0.2 else 0.0 for _ in range(n * m)]
    op = {"op": "plot", "f": rng.choice(["plot_interferogram", "plot_interferogram", "plot_mask"]), "shape": [n, m], "data": v, "ax": _target(rng, axes), "kw": {}, "opts": {}, "title": "t%d" % rng.randrange(9)}
    if op["f"] == "plot_interferogram" and rng.random() < 0.5:
        op["kw"]["wrap"] = rng.random() < 0.5
    if op["f"] == "plot_mask" and rng.random() < 0.5:
        op["kw"]["opacity"] = rng.choice([0.1, 0.9])
    if rng.random() < 0.1:
        op["fault"] = {"kind": "int", "frac": round(rng.random(), 4), "aim": rng.random() < 0.5}
    return op


def _target(rng, axes):
    return list(rng.choice(axes)) if axes and rng.random() < 0.65 else None


def _plot2d(rng, axes, dicts):
    n = rng.choice([12, 20, 30])
    vec = rng.random() < 0.2
    dim = rng.choice([2, 3, 3])
    xyz = [[spec.rnd3(rng.uniform(-3, 3)) for _ in range(dim)] for _ in range(n)]
    xyz = [q[:dim] for q in ([-3.0, -3.0, 0.0], [3.0, -3.0, 0.0], [-3.0, 3.0, 0.0], [3.0, 3.0, 0.0])] + xyz
    n += 4
    data = [[spec.rnd3(rng.uniform(0.5, 5)), spec.rnd3(rng.uniform(-5, 5))] for _ in range(n)] if vec else [spec.rnd3(rng.uniform(0.5, 5)) for _ in range(n)]
    kw = {"nx": rng.choice([8, 12]), "ny": rng.choice([8, 11])}
    if vec:
        kw["vec"] = True
    for k, v, p in (("level", True, 0.35), ("dataloc", True, 0.4), ("scale", "log", 0.25), ("method", "nearest", 0.4), ("shade", True, 0.3), ("ncontour", 4, 0.4),
                    ("clim", [1.0, 4.0], 0.3), ("mask", True, 0.3), ("shade_ncontour", 7, 0.3),
                    ("shade_azimuth", 30.0, 0.15), ("shade_angle_altitude", 20.0, 0.15)):
        if rng.random() < p:
            kw[k] = v
    opts = {}
    if rng.random() < 0.6:
        if dicts and rng.random() < 0.5:
            opts["contourOpts"] = rng.choice(dicts)
        else:
            d = ("c%d" % len(dicts), rng.choice([{"vmin": 1.0, "vmax": 4.0}, {"vmin": 1.0}, {"cmap": "jet"}, {"vmax": 4.0, "alpha": 0.5}, {"vmin": 0.9, "vmax": 4.5, "cmap": "viridis"}, {"levels": [1.0, 2.0, 3.0]}]))
            dicts.append(d)
            opts["contourOpts"] = d
    if rng.random() < 0.25:
        opts["levelOpts"] = ("l", {"colors": "k"})
    if vec and rng.random() < 0.4:
        opts["streamplotOpts"] = rng.choice([("s1", {"color": "k", "density": 0.2}), ("s2", {"density": 0.3})])
    if vec:
        opts.setdefault("streamplotOpts", ("s0", {"density": 0.2}))
    if rng.random() < 0.2:
        opts["shadeOpts"] = ("h", {"alpha": 0.2})
    return {"op": "plot", "f": "plot2Ddata", "xyz": xyz, "data": data, "kw": kw, "opts": {k: list(v) for k, v in opts.items()}, "ax": _target(rng, axes), "mask": [rng.random() < 0.3 for _ in range(n)]}


# ---------------------------------------------------------------- what an axes shows
def h(x):
    if isinstance(x, np.ma.MaskedArray):
        m = np.ma.getmaskarray(x)
        a = np.ma.getdata(x)
    else:
        a, m = np.asarray(x), False
    if a.dtype == object:
        return repr(a.tolist())
    if a.dtype.kind == "f":
        a = np.where(np.isnan(a) | m, 7e77, np.round(a.astype(float), 10) + 0.0)
    return hashlib.sha1(repr((a.shape, a.dtype.kind)).encode() + np.ascontiguousarray(a).tobytes() + (m.tobytes() if m is not False else b"")).hexdigest()[:12]


def artist(a):
    from matplotlib.lines import Line2D
    from matplotlib.collections import Collection
    from matplotlib.text import Text
    from matplotlib.patches import Patch, FancyArrowPatch
    from matplotlib.image import _ImageBase
    d = [type(a).__name__, a.get_zorder(), a.get_visible(), a.get_alpha() if not isinstance(a.get_alpha(), np.ndarray) else h(a.get_alpha()), a.get_clip_on()]
    if isinstance(a, Line2D):
        d += [h(a.get_xydata()), str(a.get_color()), a.get_linewidth(), a.get_marker(), a.get_markersize(), str(a.get_linestyle())]
    elif isinstance(a, Collection):
        d += [None if a.get_array() is None else h(a.get_array()), a.get_clim(), a.get_cmap().name, type(a.norm).__name__, h(a.get_linewidths()), len(a.get_paths())]
        v = [p.vertices for p in a.get_paths() if len(p.vertices)]
        d.append(h(np.concatenate(v)) if v else "")
        if hasattr(a, "levels"):
            d.append(h(a.levels))
        elif a.get_array() is None:          # otherwise colours are worked out when drawing
            d.append(h(a.get_facecolor()))
    elif isinstance(a, Text):
        d += [a.get_text(), a.get_fontsize(), str(a.get_color())]
    elif isinstance(a, FancyArrowPatch):     # its path depends on the view
        d += [repr(a._posA_posB) if hasattr(a, "_posA_posB") else "", str(a.get_facecolor())]
    elif isinstance(a, Patch):
        d += [h(a.get_path().vertices), str(a.get_facecolor()), str(a.get_edgecolor())]
    elif isinstance(a, _ImageBase):
        d += [h(a.get_array()), a.get_clim(), a.get_cmap().name]
    return repr(d)


def look(ax):
    """The state of an axes, as far as it can be seen."""
    ch = [artist(c) for c in ax.get_children()]
    ttl = (ax.get_title(), ax.get_xlabel(), ax.get_ylabel())
    return {"children": ch, "text": ttl, "lim": (ax.get_xlim(), ax.get_ylim()), "aspect": (str(ax.get_aspect()), ax.get_adjustable()), "on": ax.axison, "pos": h(np.round(ax.get_position(original=True).bounds, 9)),
            "scale": (ax.get_xscale(), ax.get_yscale()), "auto": (ax.get_autoscalex_on(), ax.get_autoscaley_on())}


PROCESS = ["numpy error handling", "numpy print options", "numpy buffer size", "numpy random state", "python random state", "locale", "environment", "working directory", "threads", "signal handlers", "alarm timers",
           "recursion limit", "switch interval", "gc", "decimal context", "sys hooks", "sys path", "umask", "rounding mode", "scipy special errors", "scipy constants", "numpy constants", "system limits",
           "process priority and cores", "network default timeout", "time zone", "functions of other packages", "colour maps"]


def world(figs):
    """Everything of matplotlib's that a plot call must leave alone."""
    import matplotlib
    import matplotlib.pyplot as plt
    import warnings
    return {"rc": repr(sorted((k, repr(v)) for k, v in matplotlib.rcParams.items())), "fignums": list(plt.get_fignums()), "backend": matplotlib.get_backend(), "interactive": matplotlib.is_interactive(),
            "process": {k: v for k, v in globstate.take().items() if k in PROCESS},
            "current": plt.gcf().number if plt.get_fignums() else None, "warn": repr([f[:3] for f in warnings.filters]),
            "figs": {k: {"axes": [look(a) for a in f.axes], "art": [artist(c) for c in f.get_children() if c not in f.axes], "size": tuple(f.get_size_inches()), "dpi": f.dpi,
                         "ca": _current(f)} for k, f in figs.items()}}


def _current(f):
    a = f._axstack.current() if hasattr(f, "_axstack") and f.axes else None
    return f.axes.index(a) if a in f.axes else None


# ---------------------------------------------------------------- the disk
class Raw(io.FileIO):
    def __init__(self, name, mode, at, err, closing, short):
        super().__init__(name, mode)
        self.at, self.err, self.closing, self.short, self.done, self.hit = at, err, closing, short, 0, False

    def write(self, b):
        n = len(memoryview(b).cast("B"))
        if self.at is not None and self.done + n > self.at:
            self.hit = True
            room = self.at - self.done
            if self.short and room > 0:                     # a short write first, the error on the next one
                self.done += super().write(memoryview(b).cast("B")[:room])
                return room
            raise OSError(self.err, os.strerror(self.err))
        n = super().write(b)
        self.done += n
        return n

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def close(self):
        was = self.closed
        super().close()
        if not was and self.closing:
            self.hit = True
            raise OSError(self.err, os.strerror(self.err))


class Disk:
    """Files under root opened for writing fail as the plan says."""

    def __init__(self, root, d, size):
        self.root, self.d, self.raws, self.refused = root, d, [], False
        self.at = int(d["frac"] * size) if d else None

    def __enter__(self):
        self.real = builtins.open
        if self.d:
            if self.d["mode"] == "limit":
                self.old = resource.getrlimit(resource.RLIMIT_FSIZE)
                self.sig = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (max(1, self.at), self.old[1]))
            elif self.d["mode"] != "full":
                builtins.open = self.open
                io.open, self.ioopen = self.open, io.open
        return self

    def __exit__(self, *a):
        builtins.open = self.real
        if self.d and self.d["mode"] == "limit":
            resource.setrlimit(resource.RLIMIT_FSIZE, self.old)
            signal.signal(signal.SIGXFSZ, self.sig)
        elif self.d and self.d["mode"] != "full":
            io.open = self.ioopen

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, *a, **k):
        name = os.fspath(file) if isinstance(file, (str, bytes, os.PathLike)) else None
        if name is None or not os.path.abspath(os.fsdecode(name)).startswith(self.root) or not set(mode) & set("wax+"):
            return self.real(file, mode, buffering, encoding, errors, newline, *a, **k)
        m = self.d["mode"]
        if m in ("ENOENT", "EACCES", "EMFILE"):
            self.refused = True
            e = getattr(errno, m)
            raise OSError(e, os.strerror(e), name)
        raw = Raw(name, mode.replace("b", "").replace("t", ""), None if m == "close" else self.at, errno.EIO if m in ("EIO", "close") else errno.ENOSPC, m == "close", m == "short")
        self.raws.append(raw)
        buf = io.BufferedRandom(raw) if "+" in mode else io.BufferedWriter(raw)
        return buf if "b" in mode else io.TextIOWrapper(buf, encoding, errors, newline)

    def hit(self):
        return self.refused or any(r.hit for r in self.raws)


def image(path):
    """Decode the whole file: ('png', shape, digest) or ('pdf'|'svg', complete)."""
    with open(path, "rb") as f:
        b = f.read()
    if path.endswith(".png"):
        from PIL import Image
        with Image.open(io.BytesIO(b)) as im:
            im.load()
            a = np.array(im)
        if not b.endswith(b"IEND\xaeB`\x82"):
            raise ValueError("no IEND chunk at the end")
        return ("png", a.shape, hashlib.sha1(a.tobytes()).hexdigest()[:16])
    if path.endswith(".svg"):
        import xml.dom.minidom
        xml.dom.minidom.parseString(b)
        return ("svg", b.rstrip().endswith(b"</svg>"))
    ok = b.startswith(b"%PDF") and b.rstrip().endswith(b"%%EOF") and b"startxref" in b
    if not ok:
        raise ValueError("not a complete PDF")
    return ("pdf", True)


# ---------------------------------------------------------------- execution
class Session:
    def __init__(self, root):
        self.root = root
        self.figs, self.dicts, self.rc = {}, {}, []

    def fig(self, op):
        import matplotlib.pyplot as plt
        from matplotlib.figure import Figure
        f = plt.figure() if op["managed"] else Figure()
        if not op["managed"]:
            from matplotlib.backends.backend_agg import FigureCanvasAgg
            FigureCanvasAgg(f)
        for i in range(op["n"]):
            a = f.add_subplot(1, op["n"], i + 1)
            if op["art"] in ("line", "both"):
                a.plot([0, 1, 2], [0, i, 1], "r-", lw=2)
                a.set_title("mine %d" % i)
            if op["art"] in ("image", "both"):
                a.pcolormesh(np.arange(12.0).reshape(3, 4) + i)
        self.figs[op["id"]] = f

    def call(self, op, ax, dicts=None):
        """(function, things the caller owns)"""
        kw = dict(op["kw"])
        own = []
        if op["f"] == "plot2Ddata":
            import geoana.plotting_utils as pu
            lay = op.get("lay", {})
            xyz, data = (layout(np.array(op[k]), lay.get(k, "C")) for k in ("xyz", "data"))
            if kw.pop("mask", None):
                kw["mask"] = layout(np.array(op["mask"]), lay.get("mask", "C"))
                own.append(kw["mask"])
            if "clim" in kw:
                kw["clim"] = layout(np.array(kw["clim"]), lay.get("clim", "C"))
                own.append(kw["clim"])
            for k, (name, v) in op["opts"].items():
                d = (self.dicts if dicts is None else dicts).setdefault(name, json.loads(json.dumps(v)))
                kw[k] = d
                own.append(d)
            own += [xyz, data]
            if "file" in op:
                kw["figname"] = os.path.join(self.root, op["file"])
            return lambda: pu.plot2Ddata(xyz, data, ax=ax, **kw), own, None
        import geoana.earthquake.oksar as ok
        d = layout(np.array(op["data"]), op.get("lay", {}).get("data", "C"))
        src = ok.EarthquakeInterferogram(d, op["title"], [706216.0, 4269239.0], 35, tuple(op["shape"]), [80.0, 80.0], [741140.0, 4230327.0], 23.0, 192.0, 788792.0, "x", scaling=0.5, satellite_fringe_interval=0.03)
        return lambda: getattr(src, op["f"])(ax=ax, **kw), [d], src

    def target(self, op):
        if op["ax"] is None:
            return None
        f, i = op["ax"]
        if f not in self.figs or i >= len(self.figs[f].axes):
            raise exe.Missing
        return self.figs[f].axes[i]

    def setrc(self, v):
        import matplotlib
        matplotlib.rcParams.update(v)
        self.rc.append(v)


def session(plan, root):
    import matplotlib.pyplot as plt
    s = Session(root)
    recs = []
    icls = spec.BY_NAME["earthquake.oksar.EarthquakeInterferogram"]
    for i, op in enumerate(plan["ops"]):
        rec = {"i": i}
        recs.append(rec)
        try:
            if op["op"] == "rc":
                s.setrc(op["v"])
            elif op["op"] == "fig":
                s.fig(op)
            elif op["op"] == "sca":
                f = s.figs.get(op["ax"][0])
                if f is not None and f in [plt.figure(n) for n in ()] or f is None or f.number is None if hasattr(f, "number") else True:
                    raise exe.Missing
                plt.sca(f.axes[op["ax"][1]])
            elif op["op"] == "close":
                f = s.figs.pop(op["fig"], None)
                if f is None:
                    raise exe.Missing
                plt.close(f)
            elif op["op"] == "plot":
                ax = s.target(op)
                fn, own, src = s.call(op, ax)
                f = op.get("fault")
                at = None
                if f:
                    at = faults.place(f, fn, lambda: Watch([src] if src is not None else [], own, True), 60)
                path = os.path.join(root, op["file"]) if "file" in op else None
                d = op.get("disk")
                if d and d["mode"] == "full":
                    if os.path.lexists(path):
                        os.unlink(path)
                    os.symlink("/dev/full", path)
                elif path and os.path.islink(path):
                    os.unlink(path)
                files = _files(root)
                pre = [fingerprint(x) for x in own], exe.observe(icls, src) if src is not None else None
                keys = dict(s.figs)
                if path and ax is not None:
                    ax.figure.canvas.draw()                 # saving draws; let that settle first
                before = world(keys)
                naxes = len(ax.figure.axes) if ax is not None else 0
                with Disk(root, d, op.get("size", 4000)) as disk:
                    if f:
                        with faults.make(f, at or 0) as c:
                            r = attempt(fn)
                        rec["fault"] = {"at": at, "fired": bool(c.result()[1])}
                    else:
                        r = attempt(fn)
                rec["disk"] = disk.hit() if d else None
                rec["out"] = ending((r[0], None if r[0] else r[1]))[0]
                rec["owned"] = [j for j, x in enumerate(own) if fingerprint(x) != pre[0][j]]
                rec["src"] = src is not None and exe.observe(icls, src).__repr__() != pre[1].__repr__()
                if d and d["mode"] == "full" and os.path.islink(path):
                    os.unlink(path)
                rec["files"] = sorted(set(_files(root)) ^ set(files))
                after = world(keys)
                rec["diff"] = differences(before, after, keys, ax, op)
                new = [n for n in after["fignums"] if n not in before["fignums"]]
                rec["newfigs"] = len(new)
                if r[0]:
                    if ax is None:
                        if len(new) == 1:
                            nf = plt.figure(new[0])
                            rec["look"] = [look(a) for a in nf.axes]
                            s.figs["n%d" % i] = nf
                        rec["retax"] = _returned_axes(op, r[1], nf.axes[0]) if len(new) == 1 and nf.axes else False
                    else:
                        rec["retax"] = _returned_axes(op, r[1], ax)
                        rec["added"] = added(before, look(ax), keys, ax)
                        rec["newaxes"] = [look(a) for a in ax.figure.axes[naxes:]]
                else:
                    for n in new:
                        plt.close(n)
                if path and r[0]:
                    im = attempt(lambda: image(path))
                    rec["image"] = im[1] if im[0] else ("broken", "%s: %s" % (type(im[1]).__name__, im[1]))
        except exe.Missing:
            rec["skipped"] = True
    return recs


def _files(root):
    return sorted(os.listdir(root))


def _returned_axes(op, v, ax):
    if op["f"] != "plot2Ddata":
        return getattr(v, "axes", None) is ax
    return isinstance(v, tuple) and len(v) >= 2 and v[1] is ax


def differences(a, b, figs, ax, op):
    """What changed that should not have."""
    out = [k for k in ("rc", "backend", "interactive", "warn") if a[k] != b[k]]
    out += [k for k in a["process"] if k in b["process"] and a["process"][k] != b["process"][k]]
    if [n for n in a["fignums"] if n not in b["fignums"]]:
        out.append("a figure was closed")
    if ax is not None and a["current"] != b["current"]:
        out.append("current figure")
    for k, f in figs.items():
        x, y = a["figs"][k], b["figs"][k]
        mine = ax is not None and ax.figure is f
        for what in ("art", "size", "dpi", "ca"):
            if x[what] != y[what] and not (what == "art" and mine):
                out.append("figure %s: %s" % (k, what))
        ya = y["axes"]
        if len(ya) < len(x["axes"]) or (len(ya) > len(x["axes"]) and not mine):
            out.append("figure %s: number of axes" % k)
            continue
        for i, (p, q) in enumerate(zip(x["axes"], ya)):
            if mine and f.axes[i] is ax:
                lost = [c for c in set(p["children"]) if p["children"].count(c) > q["children"].count(c) and "'Text'" not in c and "Spine" not in c and "Axis" not in c and "Rectangle" not in c]
                if lost:
                    out.append("earlier content of the given axes: " + lost[0][:80])
                continue
            if p != q:
                out.append("figure %s, axes %d: %s" % (k, i, [w for w in p if p[w] != q[w]]))
    return out


def added(before, now, figs, ax):
    for k, f in figs.items():
        if ax.figure is f:
            p = list(before["figs"][k]["axes"][f.axes.index(ax)]["children"])
            out = []
            for c in now["children"]:
                if c in p:
                    p.remove(c)
                elif not any(w in c[:14] for w in ("Text", "Spine", "XAxis", "YAxis", "Rectangle")):
                    out.append(c)
            old = before["figs"][k]["axes"][f.axes.index(ax)]
            return {"children": sorted(out), "text": [None if x == y else y for x, y in zip(old["text"], now["text"])], "aspect": now["aspect"], "off": not now["on"], "wasoff": not old["on"]}
    return None


def reference(plan, i, root, jpg=True):
    """The same single plot call in a pristine process: what is drawn, and the image."""
    import matplotlib.pyplot as plt
    s = Session(root)
    op = {k: v for k, v in plan["ops"][i].items() if k not in ("fault", "disk")}
    for o in plan["ops"][:i]:
        if o["op"] == "rc":
            s.setrc(o["v"])
    out = {}
    if op["ax"] is None:
        fn, _, _ = s.call(op, None, {})
        r = attempt(fn)
        out["out"] = ending((r[0], None if r[0] else r[1]))[0]
        if r[0]:
            out["look"] = [look(a) for a in plt.gcf().axes]
    else:
        fig = [o for o in plan["ops"][:i] if o["op"] == "fig" and o["id"] == op["ax"][0]][0]
        s.fig(fig)
        ax = s.target(op)
        before = world(s.figs)
        n = len(ax.figure.axes)
        fn, _, _ = s.call(op, ax, {})
        r = attempt(fn)
        out["out"] = ending((r[0], None if r[0] else r[1]))[0]
        if r[0]:
            out["added"] = added(before, look(ax), s.figs, ax)
            out["newaxes"] = len(ax.figure.axes) - n
    if "file" in op and r[0]:
        p = os.path.join(root, op["file"])
        out["image"] = image(p)
        out["size"] = os.path.getsize(p)
    return out


def run(plan):
    plan = json.loads(json.dumps(plan))
    root = tempfile.mkdtemp(prefix="sim-c13-")
    try:
        return _run(plan, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def _run(plan, root):
    st, viol, refs = {}, [], {}
    ops = plan["ops"]
    os.mkdir(root + "/a")

    def count(k, n=1):
        st[k] = st.get(k, 0) + n

    def bad(kind, where, i, detail):
        viol.append({"kind": kind, "where": where, "op": i, "detail": detail})
    for i, op in enumerate(ops):
        if op["op"] == "plot":
            d = os.path.join(root, "r%d" % i)
            os.mkdir(d)
            r = in_fork(lambda: reference(plan, i, d), 120)
            if r[0] != "ok":
                return seq.Result(note="reference %s: %s" % r)
            refs[i] = r[1]
            if "size" in r[1]:
                op["size"] = r[1]["size"]
    r = in_fork(lambda: session(plan, root + "/a"), 300)
    if r[0] != "ok":
        if seq.crashed(r):
            return seq.Result([{"kind": "process-died", "where": "plotting", "op": -1, "detail": "the process ended with %s" % r[1]}], {}, "died", len(ops), resolved=plan)
        return seq.Result(note="%s: %s" % r)
    sig = []
    for op, rec in zip(ops, r[1]):
        if op["op"] != "plot" or "out" not in rec or viol:
            continue
        i, where, ref, out = rec["i"], op["f"], refs[rec["i"]], rec["out"]
        sig.append((where, op["ax"] is None, out[0] if out[0] == "ok" else out[1], rec.get("disk"), op.get("disk", {}).get("mode"), rec.get("fault", {}).get("fired"), sorted(op["kw"])))
        fired = rec.get("fault", {}).get("fired") or rec.get("disk")
        if "fault" in rec:
            count("fault.int.%s" % ("fired" if rec["fault"]["fired"] else "not reached"))
            op["fault"]["at"] = rec["fault"]["at"]
        if "disk" in op:
            failed = rec["disk"] or (op["disk"]["mode"] in ("limit", "full") and out[0] == "err")
            count("fault.disk:%s.%s" % (op["disk"]["mode"], "fired" if failed else "not reached"))
            fired = fired or failed
        if rec["diff"]:
            bad("elsewhere-changed", where, i, "after the call: %s" % "; ".join(rec["diff"])[:300])
        elif rec["owned"]:
            bad("caller-data-changed", where, i, "argument data or option dictionary number %s changed" % rec["owned"])
        elif rec["src"]:
            bad("source-changed", where, i, "the source's parameters changed")
        elif out[0] == "err":
            if not fired and ref["out"][0] == "ok":
                bad("plot-fails", where, i, "%s; the same call in a fresh process succeeds" % brief(out))
            count("rejected or failed plot calls")
        elif ref["out"][0] == "err":
            if not fired:
                bad("plot-accepted", where, i, "succeeds; the same call in a fresh process: %s" % brief(ref["out"]))
        else:
            if op["ax"] is None and rec["newfigs"] != 1 or op["ax"] is not None and rec["newfigs"]:
                bad("figures-created", where, i, "%d new figures" % rec["newfigs"])
            elif not rec["retax"]:
                bad("other-axes-returned", where, i, "what is returned does not belong to the axes drawn on")
            elif op["ax"] is None:
                count("plots compared with a fresh process")
                if rec["look"] != ref["look"]:
                    bad("draws-differently", where, i, "a new figure looks different from the same call in a fresh process: %s" % _why(rec["look"], ref["look"]))
            else:
                count("plots compared with a fresh process")
                a, b = rec["added"], ref["added"]
                if len(rec["newaxes"]) != ref["newaxes"]:
                    bad("draws-differently", where, i, "%d axes added, %d in a fresh process" % (len(rec["newaxes"]), ref["newaxes"]))
                elif not _equal(a, b):
                    bad("draws-differently", where, i, "the given axes gain different things from the same call in a fresh process: %s" % _why([a], [b]))
            if "image" in rec and not viol:
                count("image files decoded")
                im = rec["image"]
                if im[0] == "broken":
                    bad("image-incomplete", where, i, "%s was reported as saved%s but is not complete: %s" % (op["file"], " (disk fault: %s)" % op["disk"]["mode"] if "disk" in op else "", im[1]))
                elif op["ax"] is None and im != ref["image"]:
                    bad("image-differs", where, i, "%s is not the image the same call gives in a fresh process" % op["file"])
            if not viol:
                extra = [f for f in rec["files"] if f != op.get("file")]
                if extra:
                    bad("files-left", where, i, "other files appeared or disappeared: %s" % extra)
    plan["ops"] = ops[: viol[0]["op"] + 1] if viol and viol[0]["op"] >= 0 else ops
    return seq.Result(viol, st, hashlib.sha1(repr(sig).encode()).hexdigest()[:16], len(ops), resolved=plan if viol else None)


def _equal(a, b):
    """What the call did to the given axes; texts that it sets may have been the same before."""
    if a is None or b is None or a["children"] != b["children"] or a["aspect"] != b["aspect"] or a["off"] != (b["off"] or a["wasoff"]):
        return False
    return all(x == y or x is None for x, y in zip(a["text"], b["text"]))


def _why(a, b):
    for x, y in zip(a, b):
        if x is None or y is None:
            return "missing"
        for k in x:
            if x[k] != y[k]:
                if k == "children":
                    p = [c for c in x[k] if c not in y[k]]
                    q = [c for c in y[k] if c not in x[k]]
                    return "children %s instead of %s" % ([c[:200] for c in p][:2], [c[:200] for c in q][:2])
                return "%s %s instead of %s" % (k, x[k], y[k])
    return "%d axes instead of %d" % (len(a), len(b))


def shrink(plan):
    ops = plan["ops"]
    yield from ((dict(plan, ops=o["ops"])) for o in seq.shrink_candidates(dict(plan, ops=ops)) if o["ops"])
    for i, op in enumerate(ops):
        if op["op"] == "plot":
            for k in list(op["kw"]):
                yield dict(plan, ops=ops[:i] + [dict(op, kw={a: b for a, b in op["kw"].items() if a != k})] + ops[i + 1:])
            for k in list(op["opts"]):
                yield dict(plan, ops=ops[:i] + [dict(op, opts={a: b for a, b in op["opts"].items() if a != k})] + ops[i + 1:])
            if "disk" in op:
                yield dict(plan, ops=ops[:i] + [{k: v for k, v in op.items() if k != "disk"}] + ops[i + 1:])
