"""Fault injection around one operation of the system under test."""
import builtins
import dis
import errno
import io
import os
import sys

import numpy as np

from . import boot
from .forks import in_fork
from .paths import REPO
from .vals import SimInterrupt, attempt

GEO = os.path.join(REPO, "geoana") + os.sep
_points = {}


def points(code):
    """Offsets at which CPython looks for pending signals: after a call, and at backward jumps."""
    p = _points.get(code)
    if p is None:
        p = set()
        prev = None
        for ins in dis.get_instructions(code):
            if prev is not None and prev.startswith("CALL") and not prev.startswith("CALL_INTRINSIC"):
                p.add(ins.offset)
            if ins.opname.startswith("JUMP_BACKWARD"):
                p.add(ins.offset)
            prev = ins.opname
        _points[code] = p
    return p


class Interrupter:
    """Counts the points in geoana code where an interrupt can arrive; raises at the at-th (1-based)."""

    def __init__(self, at=0):
        self.at, self.n, self.fired, self.where = at, 0, False, None

    def hit(self, frame):
        self.n += 1
        if self.n == self.at and not self.fired:
            self.fired = True
            self.where = "%s:%s" % (frame.f_code.co_name, frame.f_lineno)
            raise SimInterrupt("simulated interrupt")

    def top(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(GEO):
            return None
        frame.f_trace_opcodes = True
        frame.f_trace_lines = False
        self.hit(frame)
        return self.local

    def local(self, frame, event, arg):
        if event == "opcode" and frame.f_lasti in points(frame.f_code):
            self.hit(frame)
        return self.local

    def __enter__(self):
        sys.settrace(self.top)
        return self

    def __exit__(self, *a):
        sys.settrace(None)

    def result(self):
        return self.n, int(self.fired)


class Scout(Interrupter):
    """Goes through an operation noting at which of those points the watched state is neither as at the beginning nor as at the end."""

    def __init__(self, watch, alloc):
        Interrupter.__init__(self, 0)
        self.watch, self.alloc, self.seen, self.mine = watch, alloc, [], 0

    def hit(self, frame):
        self.n += 1
        if self.n > 3000:
            return
        c = sys.modules["simalloc"].peek() if self.alloc else 0
        self.seen.append((self.n, c - self.mine, self.watch.value()))
        if self.alloc:
            self.mine += sys.modules["simalloc"].peek() - c

    def __enter__(self):
        self.first = self.watch.value()
        if self.alloc:
            sys.modules["simalloc"].arm(0)
        return Interrupter.__enter__(self)

    def __exit__(self, *a):
        Interrupter.__exit__(self, *a)
        if self.alloc:
            self.total = sys.modules["simalloc"].disarm()[0] - self.mine
        self.last = self.watch.value()

    def result(self):
        return (self.total if self.alloc else self.n), 0

    def exposed(self):
        out = []
        for k, (n, c, v) in enumerate(self.seen):
            if v in (self.first, self.last):
                continue
            if self.alloc:
                out += range(c + 1, (self.seen[k + 1][1] if k + 1 < len(self.seen) else self.total) + 1)
            else:
                out.append(n)
        return out


def place(f, fn, watch=None, timeout=30):
    """Settle at which point of fn the fault strikes, by going through fn in a child process first."""
    at = f.get("at")
    if at is not None or f["kind"] not in ("int", "alloc", "new"):
        return at
    aim = watch is not None and f.get("aim") and f["kind"] != "new"

    def probe():
        c = Scout(watch(), f["kind"] == "alloc") if aim else make(f, 0)
        with c:
            attempt(fn)
        return c.result()[0], c.exposed() if aim else []
    r = in_fork(probe, timeout)
    if r[0] != "ok" or not r[1][0]:
        return 0
    n, hot = r[1]
    if hot:
        return hot[min(len(hot) - 1, int(f["frac"] * len(hot)))]
    return min(n, 1 + int(f["frac"] * n))


class Alloc:
    """The at-th numpy array allocation fails."""

    def __init__(self, at=0):
        self.at = at
        self.res = (0, 0)
        self.where = None

    def __enter__(self):
        if self.at:
            boot.plib.sim_crash_setup(os.path.join(boot.builddir, "ext").encode())
            boot.plib.sim_crash_attribute(1)
        sys.modules["simalloc"].arm(self.at)
        return self

    def __exit__(self, *a):
        self.res = sys.modules["simalloc"].disarm()
        boot.plib.sim_crash_attribute(0)

    def result(self):
        return self.res


class New:
    """The at-th C++ allocation in the compiled kernels fails."""

    def __init__(self, at=0):
        self.at = at
        self.res = (0, 0)
        self.where = None

    def __enter__(self):
        boot.newlib.simnew_arm(self.at)
        return self

    def __exit__(self, *a):
        self.res = (boot.newlib.simnew_count(), boot.newlib.simnew_fired())
        boot.newlib.simnew_arm(0)

    def result(self):
        return self.res


class FpTrap:
    """Floating-point trapping is on for the duration of the operation."""

    def __init__(self, at=0):
        self.where = None

    def __enter__(self):
        self.c = np.errstate(all="raise")
        self.c.__enter__()
        return self

    def __exit__(self, *a):
        self.c.__exit__(None, None, None)

    def result(self):
        return (1, 1)


class Disk:
    """Reading the digital-filter file fails: it cannot be opened, reads fail, or its contents are cut or damaged."""

    def __init__(self, mode, frac, times=0):
        self.mode, self.frac, self.n, self.where, self.times = mode, frac, 0, None, times

    def _open(self, file, *a, **k):
        name = file if isinstance(file, str) else getattr(file, "__fspath__", lambda: "")()
        if "libdlf" not in str(name):
            return self.real(file, *a, **k)
        if self.times and self.n >= self.times:          # a passing disturbance
            return self.real(file, *a, **k)
        self.n += 1
        if self.mode in ("EIO", "ENOENT", "EMFILE"):
            e = getattr(errno, self.mode)
            raise OSError(e, os.strerror(e), str(name))
        with self.real(file, "rb") as f:
            data = f.read()
        cut = int(self.frac * len(data))
        if self.mode == "short":
            return io.BytesIO(data[:cut])
        if self.mode == "flip":
            cut = min(cut, len(data) - 1)
            return io.BytesIO(data[:cut] + bytes([data[cut] ^ 0x5A]) + data[cut + 1:])

        class Failing(io.BytesIO):
            def read(s, n=-1):
                if s.tell() + (n if n and n > 0 else 1 << 30) > cut:
                    raise OSError(errno.EIO, os.strerror(errno.EIO), str(name))
                return io.BytesIO.read(s, n)
        return Failing(data)

    def __enter__(self):
        self.real = builtins.open
        builtins.open = self._open
        return self

    def __exit__(self, *a):
        builtins.open = self.real

    def result(self):
        return (self.n, int(self.n > 0))


def make(f, at):
    k = f["kind"]
    if k == "int":
        return Interrupter(at)
    if k == "alloc":
        return Alloc(at)
    if k == "new":
        return New(at)
    if k == "fp":
        return FpTrap()
    if k == "disk":
        return Disk(f["mode"], f["frac"], f.get("times", 0))
    raise ValueError(k)
