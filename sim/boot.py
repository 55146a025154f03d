"""Turn a fresh interpreter into a simulator template: dependencies loaded, /repo's geoana importable, kernels instrumented."""
import ctypes
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import warnings

from .paths import REPO

lib = None          # libsim (calls release the GIL)
plib = None         # libsim (calls keep the GIL)
newlib = None
builddir = None

EXT_PREFIX = "geoana.kernels._extensions."


class ExtFinder(importlib.abc.MetaPathFinder):
    """Provides geoana's compiled kernels from our instrumented build and can block any module."""

    def __init__(self, extdir):
        self.extdir = extdir
        self.blocked = {}       # prefix -> exception class

    def find_spec(self, name, path=None, target=None):
        for b, exc in self.blocked.items():
            if name == b or name.startswith(b + "."):
                raise exc("simulated: no module named %r" % name, name=name)
        if name.startswith(EXT_PREFIX):
            base = name[len(EXT_PREFIX):]
            for f in os.listdir(self.extdir):
                if f.split(".")[0] == base:
                    p = os.path.join(self.extdir, f)
                    return importlib.util.spec_from_file_location(
                        name, p, loader=importlib.machinery.ExtensionFileLoader(name, p))
        return None


finder = None


def base(bd):
    """Everything except importing geoana."""
    global lib, plib, newlib, builddir, finder
    builddir = bd
    sys.dont_write_bytecode = True
    sys.meta_path[:] = [f for f in sys.meta_path if "esonpy" not in type(f).__name__ and "esonpy" not in str(type(f))]
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != REPO]
    sys.path.insert(0, REPO)
    sys.path_importer_cache.clear()
    newlib = ctypes.CDLL(os.path.join(bd, "libsimnew.so"))
    newlib.simnew_arm.argtypes = [ctypes.c_long]
    newlib.simnew_count.restype = ctypes.c_long
    newlib.simnew_fired.restype = ctypes.c_long
    p = os.path.join(bd, "libsim.so")
    lib = ctypes.CDLL(p, mode=ctypes.RTLD_GLOBAL)
    plib = ctypes.PyDLL(p)
    for l in (lib, plib):
        l.sim_config.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_uint64, ctypes.c_double, ctypes.c_uint64, ctypes.c_int]
        l.sim_stat.restype = ctypes.c_uint64
        l.sim_stat.argtypes = [ctypes.c_int]
        l.sim_switch.argtypes = [ctypes.c_int]
        l.sim_crash_setup.argtypes = [ctypes.c_char_p]
        l.sim_enter.argtypes = [ctypes.c_int]
    finder = ExtFinder(os.path.join(bd, "ext"))
    sys.meta_path.insert(0, finder)
    warnings.simplefilter("ignore")
    import numpy  # noqa
    import numpy.random, numpy.linalg, numpy.ma  # noqa
    import scipy.constants, scipy.special, scipy.spatial.transform, scipy.interpolate  # noqa
    import datetime, decimal, locale, logging, copy, pickle, _strptime  # noqa
    import libdlf  # noqa
    import libdlf.hankel  # noqa


def load_alloc():
    spec = None
    for f in os.listdir(builddir):
        if f.startswith("simalloc"):
            p = os.path.join(builddir, f)
            spec = importlib.util.spec_from_file_location("simalloc", p, loader=importlib.machinery.ExtensionFileLoader("simalloc", p))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    sys.modules["simalloc"] = m
    return m


class CodeLoader(importlib.machinery.SourceFileLoader):
    """Loads geoana's modules from code compiled once in the template (nothing is cached on disk)."""
    cache = {}

    def get_code(self, name):
        p = self.get_filename(name)
        c = CodeLoader.cache.get(p)
        return c if c is not None else super().get_code(name)


class GeoFinder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != "geoana" and not name.startswith("geoana."):
            return None
        base = os.path.join(REPO, *name.split("."))
        for p, pkg in ((os.path.join(base, "__init__.py"), True), (base + ".py", False)):
            if p in CodeLoader.cache:
                return importlib.util.spec_from_file_location(name, p, loader=CodeLoader(name, p), submodule_search_locations=[base] if pkg else None)
        return None


def precompile():
    for root, dirs, files in os.walk(os.path.join(REPO, "geoana")):
        for f in files:
            if f.endswith(".py"):
                p = os.path.join(root, f)
                with open(p, "rb") as h:
                    CodeLoader.cache[p] = compile(h.read(), p, "exec")
    sys.meta_path.insert(1, GeoFinder())


def forget(name):
    for m in [m for m in sys.modules if m == name or m.startswith(name + ".")]:
        del sys.modules[m]


def block(*names, exc=ModuleNotFoundError):
    for n in names:
        finder.blocked[n] = exc


def import_geoana():
    import geoana, geoana.gravity, geoana.shapes, geoana.spatial, geoana.kernels, geoana.utils  # noqa
    import geoana.em.fdem, geoana.em.tdem, geoana.em.static, geoana.earthquake.oksar  # noqa
    import geoana.em.tdem.reference  # noqa
    import geoana.plotting_utils  # noqa
    if not os.path.abspath(geoana.__file__).startswith(REPO + os.sep):
        raise RuntimeError("geoana imported from %s, not from %s" % (geoana.__file__, REPO))
    return geoana


class SimLock:
    """threading.Lock as geoana sees it inside a concurrent simulation: waiting hands the baton on."""

    def __init__(self):
        import _thread
        self._l = _thread.allocate_lock()

    def acquire(self, blocking=True, timeout=-1):
        if plib.sim_me() < 0:
            return self._l.acquire(blocking, timeout)
        n = 0
        while not self._l.acquire(False):
            if not blocking:
                return False
            n += 1
            if n > 20000:
                raise RuntimeError("simulated deadlock")
            lib.sim_block()
        return True

    def release(self):
        self._l.release()

    def locked(self):
        return self._l.locked()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class SimRLock:
    def __init__(self):
        self._l = SimLock()
        self._owner = None
        self._n = 0

    def acquire(self, blocking=True, timeout=-1):
        import _thread
        t = _thread.get_ident()
        if self._owner == t:
            self._n += 1
            return True
        if self._l.acquire(blocking, timeout):
            self._owner, self._n = t, 1
            return True
        return False

    def release(self):
        self._n -= 1
        if self._n == 0:
            self._owner = None
            self._l.release()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        import _thread
        return self._owner == _thread.get_ident()


def _warm_matplotlib():
    """Load backends, fonts and image plugins once, so that forked processes need not."""
    import io
    import xml.dom.minidom  # noqa
    import matplotlib.pyplot as plt
    import matplotlib.backends.backend_pdf, matplotlib.backends.backend_svg, matplotlib.streamplot  # noqa
    import PIL.Image
    PIL.Image.init()
    for f in ("png", "pdf", "svg"):
        fig = plt.figure(figsize=(1, 1))
        a = fig.add_subplot()
        a.set_title("t")
        fig.savefig(io.BytesIO(), format=f)
        plt.close(fig)


def prime_tracing():
    """CPython delivers instruction events only after some frame has asked for them once; ask now, so that the first call in a run has them too."""
    def top(f, e, a):
        f.f_trace_opcodes = True
        return top
    for _ in range(2):
        sys.settrace(top)
        (lambda: 0)()
        sys.settrace(None)
    n = [0]

    def count(f, e, a):
        f.f_trace_opcodes = True
        n[0] += e == "opcode"
        return count
    sys.settrace(count)
    (lambda x: x + 1)(1)
    sys.settrace(None)
    assert n[0], "no instruction events"


def setup(bd, kind):
    """kind: 'lean' (no matplotlib/numba), 'full', 'threads' (lean + simulated locks), 'bare' (geoana not imported)."""
    base(bd)
    prime_tracing()
    load_alloc()
    if kind in ("lean", "threads"):
        block("numba", "matplotlib")
        import utm, requests  # noqa
    else:
        import matplotlib
        matplotlib.use("Agg")
        import matplotlib.pyplot, matplotlib.colors  # noqa
        import utm, requests  # noqa
        if kind == "full":
            block("numba")
            _warm_matplotlib()
    if kind == "bare":
        try:
            import numba, numba.extending  # noqa
        except ImportError:
            pass
        precompile()
    if kind == "threads":
        import threading
        threading.Lock, threading.RLock = SimLock, SimRLock
    if kind != "bare":
        import_geoana()
