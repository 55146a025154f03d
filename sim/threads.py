"""Concurrent execution under the baton scheduler: real threads, exactly one running, switches chosen by the simulator."""
import ctypes
import dis
import sys
import _thread

from . import boot, exe, faults
from .watch import Watch


STORES = {}


def stores(code):
    """Offsets of the instructions that write to something other than a local variable."""
    s = STORES[code] = frozenset([-1] + [i.offset for i in dis.get_instructions(code) if i.opname in ("STORE_ATTR", "STORE_SUBSCR", "STORE_SLICE", "STORE_GLOBAL", "DELETE_SUBSCR", "DELETE_ATTR")
                                         or i.opname == "BINARY_OP" and i.argrepr.endswith("=")])
    return s


AFTER = {}


def after(code):
    """Offsets of the instructions that follow a call or a store."""
    s, prev = set([-1]), False
    for i in dis.get_instructions(code):
        if prev:
            s.add(i.offset)
        prev = i.opname.startswith(("CALL", "STORE_ATTR", "STORE_SUBSCR", "STORE_SLICE", "STORE_GLOBAL", "DELETE_", "BINARY_OP"))
    AFTER[code] = s
    return s


class Tracer:
    """A scheduling point before every bytecode instruction of geoana's own code."""

    def __init__(self, mode, shared=None):
        self.mode, self.stored, self.shared = mode, False, shared
        self.point, self.switch = boot.plib.sim_point_at, boot.lib.sim_switch
        self.seen = set()

    def top(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(faults.GEO) or frame.f_code.co_name == "<module>":
            return None
        frame.f_trace_opcodes = True
        frame.f_trace_lines = False
        to = self.point(0)
        if to >= 0:
            self.switch(to)
        return self.local

    def local(self, frame, event, arg):
        if event == "opcode":
            code = frame.f_code
            if self.mode == 2:
                at = (code, frame.f_lasti)
                fresh = at not in self.seen
                if fresh:
                    self.seen.add(at)
            elif self.mode == 3:
                fresh, self.stored = self.stored, frame.f_lasti in (STORES.get(code) or stores(code))
            elif self.mode == 4:         # right after anything the threads share has changed
                fresh = 0
                if frame.f_lasti in (AFTER.get(code) or after(code)):
                    v = self.shared[0].value()
                    fresh = v != self.shared[1]
                    self.shared[1] = v
            else:
                fresh = 1
            to = self.point(fresh)
            if to >= 0:
                self.switch(to)
        return self.local


def run(plan):
    """Returns {'pre': recs, 'tasks': [recs], 'before': obs, 'after': obs, 'switches': [...], 'stat': [...]}."""
    ex = exe.Exec({"ops": [], "cfg": plan["cfg"]})
    pre = []
    for i, op in enumerate(plan["pre"]):
        rec = {"i": i}
        _step(ex, op, rec)
        pre.append(rec)
    tasks = plan["tasks"]
    n = len(tasks)
    before = {o: exe.observe(ex.cls[o], x) for o, x in ex.objs.items()}
    s = plan["sched"]
    if "switches" in s:
        boot.plib.sim_config(n, 0, 1, 1.0, 0, s["first"] % n)
        sw = s["switches"]
        k = len(sw)
        END = (1 << 64) - 1
        boot.plib.sim_explicit(k, (ctypes.c_int * k)(*[a for a, b, c in sw]), (ctypes.c_uint64 * k)(*[END if b < 0 else b for a, b, c in sw]), (ctypes.c_int * k)(*[c for a, b, c in sw]))
    else:
        boot.plib.sim_config(n, s.get("mode", 1), s["seed"], s["gap"], s["max"], s["first"] % n)
    recs = [[] for _ in tasks]
    fails = []
    done = [_thread.allocate_lock() for _ in tasks]
    for d in done:
        d.acquire()

    shared = None
    if s.get("mode") == 4:
        w = Watch(ex.objs.values(), ex.bufs.values())
        shared = [w, w.value()]

    def body(t):
        try:
            boot.lib.sim_enter(t)
            tr = Tracer(s.get("mode", 1), shared)
            try:
                for j, op in enumerate(tasks[t]):
                    rec = {"i": j}
                    recs[t].append(rec)
                    sys.settrace(tr.top)
                    try:
                        _step(ex, op, rec)
                    finally:
                        sys.settrace(None)
            except BaseException:
                import traceback
                fails.append(traceback.format_exc()[-1500:])
            finally:
                sys.settrace(None)
                boot.lib.sim_leave()
        finally:
            done[t].release()
    for t in range(n):
        _thread.start_new_thread(body, (t,))
    boot.lib.sim_go()
    for d in done:
        d.acquire()
    M = 4096
    a, b, c = (ctypes.c_int * M)(), (ctypes.c_uint64 * M)(), (ctypes.c_int * M)()
    k = boot.plib.sim_records(a, b, c)
    END = (1 << 64) - 1
    sw = [(a[i], -1 if b[i] == END else b[i], c[i]) for i in range(k)]
    after = {o: exe.observe(ex.cls[o], ex.objs[o]) for o in before}
    return {"pre": pre, "tasks": recs, "before": before, "after": after, "switches": sw, "fails": fails, "stat": [boot.plib.sim_stat(i) for i in range(5)]}


def _step(ex, op, rec):
    try:
        ex.step(op, rec)
    except exe.Missing:
        rec["skipped"] = True
