"""Process-wide state: snapshot, comparison, and randomised prior settings."""
import atexit
import copyreg
import decimal
import gc
import hashlib
import locale
import logging
import os
import random
import resource
import signal
import socket
import sys
import tempfile
import threading
import time
import warnings

import numpy as np

_libm = None
_tiny = float("1e-308")


def prepare(pre):
    """Put the process into the prior state described by pre (part of the plan)."""
    import libdlf.hankel
    os.makedirs(pre["cwd"], exist_ok=True)
    os.chdir(pre["cwd"])
    np.seterr(**pre["seterr"])
    np.set_printoptions(**pre["print"])
    np.random.seed(pre["npseed"])
    random.seed(pre["pyseed"])
    os.environ["SIM_VAR"] = pre["env"]
    decimal.getcontext().prec = pre["prec"]
    sys.setrecursionlimit(pre["reclimit"])
    sys.setswitchinterval(pre["switch"])
    if pre["warn"]:
        warnings.simplefilter(pre["warn"])
    gc.set_threshold(*pre["gc"])
    logging.getLogger().setLevel(pre["loglevel"])
    if pre["sig"]:
        signal.signal(signal.SIGINT, _handler)
    import scipy.special
    if pre["special"]:
        scipy.special.seterr(domain="warn")
    if "matplotlib" in sys.modules and sys.modules["matplotlib"] is not None:
        import matplotlib
        matplotlib.rcParams.update(pre["rc"])
    if pre["dlf"]:
        libdlf.hankel.key_101_2009()
    np.setbufsize(pre["bufsize"])


def _handler(*a):
    pass


def draw(rng, scratch):
    return {"cwd": scratch,
            "seterr": {k: rng.choice(["ignore", "ignore", "raise", "warn"]) if rng.random() < 0.3 else "ignore" for k in ("divide", "over", "under", "invalid")},
            "print": {"precision": rng.randint(3, 12), "threshold": rng.choice([5, 1000]), "suppress": rng.random() < 0.5},
            "npseed": rng.randrange(1000), "pyseed": rng.randrange(1000), "env": str(rng.randrange(10)), "prec": rng.randint(10, 40),
            "reclimit": rng.choice([1000, 1500, 3000]), "switch": rng.choice([0.005, 0.001, 0.01]), "warn": rng.choice(["", "ignore", "default", "always"]),
            "gc": rng.choice([[700, 10, 10], [500, 5, 5]]), "loglevel": rng.choice([10, 30, 40]), "sig": rng.random() < 0.5, "special": rng.random() < 0.5,
            "rc": rng.choice([{}, {"font.size": 7.0}, {"image.cmap": "jet", "figure.dpi": 50.0}]), "dlf": rng.random() < 0.7, "bufsize": rng.choice([8192, 4096])}


def _h(x):
    return hashlib.sha1(repr(x).encode()).hexdigest()[:16]


def _arr(a):
    return hashlib.sha1(np.ascontiguousarray(a).tobytes()).hexdigest()[:16] + str(a.flags.writeable)


def take():
    import libdlf.hankel
    import scipy.constants
    import scipy.special
    s = {}
    s["numpy error handling"] = (sorted(np.geterr().items()), repr(np.geterrcall()))
    s["numpy print options"] = repr(sorted(np.get_printoptions().items(), key=lambda t: t[0]))
    s["numpy buffer size"] = np.getbufsize()
    st = np.random.get_state()
    s["numpy random state"] = (st[0], _arr(st[1]), st[2:])
    s["python random state"] = _h(random.getstate())
    s["warning filters"] = repr(warnings.filters)
    s["warning hooks"] = (id(warnings.showwarning), id(warnings.formatwarning), id(warnings.warn))
    s["locale"] = locale.setlocale(locale.LC_ALL)
    s["environment"] = sorted(os.environ.items())
    s["working directory"] = os.getcwd()
    s["files in working directory"] = sorted(os.listdir("."))
    s["open files"] = sorted((f, _rl(f)) for f in os.listdir("/proc/self/fd") if _rl(f) and "/proc/" not in _rl(f))
    s["threads"] = sorted(t.name for t in threading.enumerate())
    s["signal handlers"] = tuple(repr(signal.getsignal(n)) for n in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGFPE, signal.SIGUSR1, signal.SIGPIPE, signal.SIGCHLD))
    s["alarm timers"] = (signal.getitimer(signal.ITIMER_REAL), signal.getitimer(signal.ITIMER_VIRTUAL), signal.getitimer(signal.ITIMER_PROF))
    s["recursion limit"] = sys.getrecursionlimit()
    s["switch interval"] = sys.getswitchinterval()
    s["gc"] = (gc.isenabled(), gc.get_threshold(), gc.get_debug())
    s["decimal context"] = repr(decimal.getcontext()).split("flags")[0]
    s["logging"] = (logging.getLogger().level, [repr(h) for h in logging.getLogger().handlers], logging.root.manager.disable)
    s["sys hooks"] = (id(sys.excepthook), id(sys.displayhook), repr(sys.gettrace()), repr(sys.getprofile()), id(sys.stdout), id(sys.stderr))
    s["sys path"] = list(sys.path)
    s["umask"] = _umask()
    s["rounding mode"] = _fegetround()
    s["scipy special errors"] = sorted(scipy.special.geterr().items())
    s["scipy constants"] = (scipy.constants.mu_0, scipy.constants.epsilon_0, scipy.constants.G, scipy.constants.pi, scipy.constants.c)
    s["numpy constants"] = (np.pi, np.e)
    c = getattr(libdlf.hankel.key_101_2009, "cache", None)
    s["filter tables"] = None if c is None else tuple(_arr(a) for a in c)
    s["system limits"] = tuple(resource.getrlimit(r) for r in (resource.RLIMIT_FSIZE, resource.RLIMIT_AS, resource.RLIMIT_NOFILE, resource.RLIMIT_STACK, resource.RLIMIT_CPU))
    s["process priority and cores"] = (os.getpriority(os.PRIO_PROCESS, 0), len(os.sched_getaffinity(0)))
    s["network default timeout"] = socket.getdefaulttimeout()
    s["time zone"] = time.tzname
    s["temporary directory"] = tempfile.tempdir
    s["exit handlers"] = atexit._ncallbacks()
    s["import hooks"] = [repr(type(f)) + str(id(f)) for f in sys.meta_path]
    s["pickling registry"] = len(copyreg.dispatch_table)
    s["subnormal numbers"] = _tiny * 0.5 != 0
    s["functions of other packages"] = _patched()
    mpl = sys.modules.get("matplotlib")
    if mpl is not None:
        cm = sys.modules.get("matplotlib.cm")
        if cm is not None:
            s["colour maps"] = _h([[repr(getattr(getattr(cm, n), a, None)) for a in ("_rgba_bad", "_rgba_under", "_rgba_over", "N", "name")] for n in ("hsv", "jet", "viridis", "Greys") if hasattr(cm, n)])
        s["matplotlib settings"] = _h(sorted((k, repr(v)) for k, v in dict.items(mpl.rcParams)))
        plt = sys.modules.get("matplotlib.pyplot")
        if plt is not None:
            s["open figures"] = plt.get_fignums()
        s["matplotlib backend"] = dict.get(mpl.rcParams, "backend")
    return s


_names = {}
_MODS = ("numpy", "numpy.linalg", "numpy.random", "scipy.special", "scipy.constants", "builtins", "math", "os", "warnings", "time", "libdlf.hankel", "scipy.spatial.transform")


def _patched():
    """Names in other packages that are bound to something else than when first seen."""
    out = []
    for m in _MODS:
        mod = sys.modules.get(m)
        if mod is None:
            continue
        d = vars(mod)
        if m not in _names:
            _names[m] = {k: v for k, v in d.items() if callable(v) and not k.startswith("__")}
        for k, v in _names[m].items():
            if d.get(k) is not v:
                out.append(m + "." + k)
    return out


def _rl(f):
    try:
        return os.readlink("/proc/self/fd/" + f)
    except OSError:
        return ""


def _umask():
    # without changing it
    with open("/proc/self/status") as f:
        for l in f:
            if l.startswith("Umask"):
                return l.split()[1]


def _fegetround():
    global _libm
    if _libm is None:
        import ctypes
        _libm = ctypes.CDLL("libm.so.6")
    return _libm.fegetround()


def diff(a, b):
    out = {}
    for k in b:
        if a.get(k) != b[k]:
            if k == "filter tables" and a.get(k) is None and b[k] == REF.get("tables"):
                continue          # libdlf loaded its table on first use, unaltered
            out[k] = (str(a.get(k))[:300], str(b[k])[:300])
    return out


REF = {}


def reference_tables():
    """Hashes of the pristine filter tables, read directly from the file (call in a throw-away process)."""
    import libdlf.hankel
    return tuple(_arr(a) for a in libdlf.hankel.key_101_2009())
