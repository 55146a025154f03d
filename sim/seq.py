"""Everything common to the properties decided on sequential histories."""
import hashlib
import json

from . import exe, judge
from .forks import in_fork
from .oracle import Oracle


class Result:
    def __init__(self, viol=(), stats=None, sig="", steps=0, note=None, resolved=None):
        self.viol, self.stats, self.sig, self.steps, self.note = list(viol), stats or {}, sig, steps, note
        self.resolved = resolved


def signature(plan, recs):
    """What was reached: the sequence of (operation, target, ending) of the run."""
    parts = []
    for op, rec in zip(plan["ops"], recs):
        o = rec.get("out")
        f = rec.get("fault")
        parts.append((op["op"], op.get("cls") or op.get("f") or op.get("m") or op.get("p") or op.get("how"), None if o is None else o[0] if o[0] == "ok" else o[1],
                      None if not f else (f["kind"], f["where"], f["fired"])))
    return hashlib.sha1(repr(parts).encode()).hexdigest()[:16]


CRASH = {"signal %d" % n for n in (4, 6, 7, 8, 11)} | {"exit 71"}


def crashed(r):
    """The process was ended by its own fault (not killed from outside, not a harness problem)."""
    return r[0] == "died" and r[1] in CRASH


def run(plan, checks, died_is=None, timeout=60):
    if plan["cfg"].get("segments"):
        r = exe.run_segments(plan, timeout)
    else:
        r = in_fork(lambda: exe.run_plan(plan), timeout)
    if r[0] == "died":
        if crashed(r):
            return Result([{"kind": "process-died", "where": died_is or "operation", "op": -1, "detail": "the process ended with %s" % r[1]}], {}, "died", len(plan["ops"]))
        if r[1] == "exit 70":                  # see libsim.c
            return Result(stats={"numpy itself crashed on the injected allocation failure": 1}, sig="numpy", steps=len(plan["ops"]))
        return Result(note="died: %s" % r[1])
    if r[0] != "ok":
        return Result(note="%s: %s" % (r[0], r[1]))
    recs = r[1]
    j = judge.Judge(plan, recs, Oracle(), checks)
    viol = j.run()
    j.stats["reference runs"] = j.oracle.queries
    res = Result(viol, j.stats, signature(plan, recs), len(plan["ops"]))
    if viol:                                   # freeze the fault positions that were resolved during the run
        p2 = json.loads(json.dumps(plan))
        for op, rec in zip(p2["ops"], recs):
            if "fault" in rec and "fault" in op and rec["fault"].get("at") is not None:
                op["fault"]["at"] = rec["fault"]["at"]
        p2["ops"] = p2["ops"][: viol[0]["op"] + 1] if viol[0]["op"] >= 0 else p2["ops"]
        res.resolved = p2
    return res


def shrink_candidates(plan):
    """Smaller plans, most aggressive first."""
    ops = plan["ops"]
    n = len(ops)
    size = n // 2
    while size >= 1:
        for s in range(0, n, size):
            if s + size <= n and n - size >= 1:
                yield dict(plan, ops=ops[:s] + ops[s + size:])
        size //= 2
    for i, op in enumerate(ops):
        if "fault" in op:
            yield dict(plan, ops=ops[:i] + [{k: v for k, v in op.items() if k != "fault"}] + ops[i + 1:])
        if op["op"] == "new":
            for p in list(op["kw"]):
                kw = {k: v for k, v in op["kw"].items() if k != p}
                yield dict(plan, ops=ops[:i] + [dict(op, kw=kw)] + ops[i + 1:])
        if "res" in op:
            yield dict(plan, ops=ops[:i] + [{k: v for k, v in op.items() if k != "res"}] + ops[i + 1:])
        for d in _shrunk_args(op):
            yield dict(plan, ops=ops[:i] + [d] + ops[i + 1:])


def _shrunk_args(op):
    for j, a in enumerate(op.get("args", [])):
        if a["t"] == "arr" and isinstance(a["v"], list) and len(a["v"]) > 1 and a["v"] and isinstance(a["v"][0], list):
            args = list(op["args"])
            args[j] = dict(a, v=a["v"][:1])
            yield dict(op, args=args)
        if a["t"] == "arr" and a.get("lay", "C") != "C":
            args = list(op["args"])
            args[j] = dict(a, lay="C")
            yield dict(op, args=args)
