"""Judge a recorded sequential history against the model and the pristine-process oracle."""
import numpy as np

from . import spec
from .oracle import Unknown
from .vals import value_of, norm_value, same_value, same_outcome, brief, close, Hostile, within_conditioning


def raw(n):
    """Observed (normalised) value back to a plain Python value."""
    if n[0] == "a":
        if n[1] == "scalar":
            return n[4][()]
        if n[1] in ("float", "complex"):
            return n[4].item()
        return n[4]
    if n[0] == "v":
        return n[2]
    if n[0] == "t":
        v = [raw(x) for x in n[2]]
        return tuple(v) if n[1] == "tuple" else v
    return n


def agrees(want, got, rtol=1e-12):
    """Does an observed value equal the modelled one?"""
    if isinstance(want, str) and want == spec.ABSENT:
        return got == ("absent",)
    if got[0] in ("absent", "raises", "other"):
        return False
    g = raw(got)
    if isinstance(want, np.ndarray):
        return isinstance(g, np.ndarray) and g.shape == want.shape and g.dtype.kind in "fciu" and close(np.asarray(g, dtype=want.dtype if want.dtype.kind == "c" else None), want, rtol)
    if isinstance(want, bool):
        return g is want
    if isinstance(want, (float, int, complex, np.generic)) and not isinstance(want, bool):
        if isinstance(g, (str, bool, tuple, list, type(None))):
            return False
        return np.ndim(g) == 0 and close(np.asarray(g), np.asarray(want), rtol)
    return g == want


def show(x):
    if isinstance(x, tuple) and x and x[0] in ("a", "v", "t"):
        x = raw(x)
    return repr(x)[:120]


class Judge:
    def __init__(self, plan, recs, oracle, checks):
        self.plan, self.recs, self.oracle, self.checks = plan, recs, oracle, set(checks)
        self.cand = {}       # object -> list of possible canonical states, or None when not judged
        self.cls = {}
        self.viol = []
        self.stats = {}
        self.held = {}
        self.saved, self.crashes, self.group = {}, 0, {}
        self.derailed = set()    # objects whose state is no longer the one the plan assumed

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def bad(self, kind, where, i, detail):
        self.viol.append({"kind": kind, "where": where, "op": i, "detail": detail})

    def run(self):
        for op, rec in zip(self.plan["ops"], self.recs):
            self.step(op, rec)
            if self.viol:
                break
        return self.viol

    # ------------------------------------------------------------
    def step(self, op, rec):
        i = rec["i"]
        if rec.get("skipped"):
            return
        k = op["op"]
        fault = rec.get("fault")
        fired = bool(fault and fault["fired"])
        if fault:
            name = fault["kind"] + (":" + fault["mode"] if "mode" in fault else "")
            hit = fired and (name != "fp" or (rec.get("out") or " ")[0] == "err" and rec["out"][1] == "FloatingPointError")
            self.count("fault.%s.%s" % (name, "fired" if hit else "not reached"))
        out = rec.get("out")
        if k == "new":
            self.on_new(op, rec, i, out, fired)
        elif k == "set":
            self.on_set(op, rec, i, out, fired)
        elif k in ("call", "get", "fn"):
            self.on_eval(op, rec, i, out, fired)
        elif k == "cp":
            if out[0] == "ok":
                self.cls[op["new"]] = self.cls.get(op["obj"])
                if op["obj"] in self.derailed:
                    self.derailed.add(op["new"])
                if op["how"] == "copy":          # a shallow copy shares its arrays
                    self.group[op["new"]] = self.group.setdefault(op["obj"], op["obj"])
                c = self.cand.get(op["obj"])
                self.cand[op["new"]] = None if c is None else [dict(s) for s in c]
                self.count("copies." + op["how"])
            elif "copy" in self.checks and not fired:
                self.bad("copy-fails", self.cls[op["obj"]].name, i, "%s failed with %s" % (op["how"], brief(out)))
        elif k == "save":
            if out[0] == "ok":
                c = self.cand.get(op["obj"])
                self.saved[op["id"]] = (self.cls[op["obj"]], None if c is None else [dict(s) for s in c], op["obj"] in self.derailed)
                self.count("sources saved")
            elif "copy" in self.checks:
                self.bad("copy-fails", self.cls[op["obj"]].name, i, "pickling failed with %s" % brief(out))
        elif k == "load":
            if out[0] == "ok":
                self.cls[op["new"]], self.cand[op["new"]], der = self.saved[op["id"]]
                if der:
                    self.derailed.add(op["new"])
                self.count("sources restored after a crash" if self.crashes else "sources restored")
            elif "copy" in self.checks:
                self.bad("copy-fails", self.saved[op["id"]][0].name, i, "restoring a pickle failed with %s" % brief(out))
        elif k == "crash":
            self.crashes += 1
            self.count("fault.crash.fired")
            self.cand, self.cls, self.held, self.group = {}, {}, {}, {}
        elif k == "poke" and rec.get("wrote"):
            self.count("parameter arrays changed in place")
            o = op["obj"]
            for x in self.cand if not op.get("judged") else ():
                if x == o or self.group.get(x, x) == self.group.get(o, o):
                    self.cand[x] = None          # its own business; every other object must stay as it was
                    self.derailed.add(x)
            c = self.cand.get(o)
            if op.get("judged") and c is not None:      # it has the value it reads back: the new one, or still the old one
                both = c + [dict(s, **{op["p"]: s[op["p"]] * op["f"]}) for s in c if isinstance(s[op["p"]], np.ndarray)]
                self.cand[o] = [s for s in both if agrees(s[op["p"]], rec["read"])] or None
        elif k == "del":
            self.cand.pop(op["obj"], None)
        elif k == "scrib" and rec.get("wrote"):
            self.count("results overwritten by caller")
        elif k == "mut":
            self.count("caller arrays changed in place")
        if self.viol:
            return
        if "touch" in self.checks and "touched" in rec:
            w = op.get("cls") or op.get("f") or (self.cls[op["obj"]].name + "." + (op.get("m") or op.get("p") or ""))
            self.bad("argument-modified", w, i, "the call changed caller-owned data %s (outcome %s%s)" % (rec["touched"], brief(out), ", fault " + str(fault) if fault else ""))
            return
        if "obs" in rec and ("readback" in self.checks or "domain" in self.checks):
            self.on_obs(op, rec, i)
        if "held" in rec and "held" in self.checks:
            self.on_held(op, rec, i)
        if "glob" in rec and "glob" in self.checks:
            g = sorted(rec["glob"])[0]
            w = op.get("cls") or op.get("f") or (self.cls[op["obj"]].name + "." + (op.get("m") or op.get("p") or "")) if op.get("obj") in self.cls or "cls" in op or "f" in op else k
            self.bad("global-state", g, i, "%s changed %s: %s -> %s%s" % (w, g, rec["glob"][g][0], rec["glob"][g][1], ", fault " + str(fault) if fault else ""))

    def on_new(self, op, rec, i, out, fired):
        cls = spec.BY_NAME[op["cls"]]
        self.count("constructions")
        if op.get("bad"):
            self.count("invalid values offered")
            if out[0] == "ok":
                if "accept" in self.checks:
                    self.bad("invalid-accepted", cls.name + "." + op["bad"], i, "constructor accepted %s=%r" % (op["bad"], _short(rec["kw"][op["bad"]])))
                self.cand[op["obj"]] = None
                self.cls[op["obj"]] = cls
            return
        if out[0] == "ok":
            self.cls[op["obj"]] = cls
            kw = {p: value_of(v) for p, v in rec["kw"].items()}
            try:
                self.cand[op["obj"]] = [spec.state_after_ctor(cls, kw)]
            except Exception:
                self.cand[op["obj"]] = None
        elif not fired and "accept" in self.checks:
            self.bad("valid-rejected", cls.name, i, "constructor raised %s for %s" % (brief(out), {k: _short(v) for k, v in rec["kw"].items()}))

    def on_set(self, op, rec, i, out, fired):
        o = op["obj"]
        cls = self.cls[o]
        c = self.cand.get(o)
        self.count("assignments")
        v = value_of(rec["val"])
        new = None
        hostile = isinstance(v, Hostile)
        if c is not None and not op.get("bad"):
            try:
                if hostile:
                    raise ValueError      # what an odd object converts to is not specified; see below
                new = [spec.apply_set(cls, s, op["p"], v) for s in c]
            except Exception:
                new = None
        if op["p"] == "depth_bottom" and not hostile and self.undecided(c, v, op.get("bad")):
            # below or above the other depth, depending on how an earlier interrupted assignment ended
            if out[0] == "ok":
                self.cand[o] = self.adopt(cls, rec.get("obs", {}).get(o)) if c is not None else None
            self.count("assignments of undecided validity")
            return
        if op.get("bad"):
            self.count("invalid values offered")
            if out[0] == "ok":
                if "accept" in self.checks and o not in self.derailed:
                    self.bad("invalid-accepted", cls.name + "." + op["p"], i, "assignment accepted %s=%r" % (op["p"], _short(rec["val"])))
                self.cand[o] = None
            return
        if hostile:
            self.count("hostile values offered")
        if out[0] == "ok" and hostile:
            self.derailed.add(o)
            self.cand[o] = self.adopt(cls, rec.get("obs", {}).get(o)) if c is not None else None
        elif out[0] == "ok":
            self.cand[o] = new
        elif fired or hostile:
            if c is not None and new is not None and fired:
                self.cand[o] = c + new         # before or after, to be settled by what is observed next
            self.count("assignments failed half way")
        elif "accept" in self.checks and o not in self.derailed:
            self.bad("valid-rejected", cls.name + "." + op["p"], i, "assignment raised %s for %r" % (brief(out), _short(rec["val"])))

    @staticmethod
    def undecided(c, v, bad):
        try:
            v = float(v)
        except Exception:
            return False
        if c is None:
            return True
        return any(bool(v >= float(s["depth_top"])) == bool(bad) for s in c)

    @staticmethod
    def adopt(cls, d):
        """Continue from what the object says it holds."""
        if d is None or any(d[p][0] in ("raises", "other") for p in cls.params):
            return None
        return [{p: spec.ABSENT if d[p] == ("absent",) else raw(d[p]) for p in cls.params}]

    def on_eval(self, op, rec, i, out, fired):
        self.count("evaluations")
        if "eval" not in self.checks and "faulteval" not in self.checks:
            return
        if op["op"] != "fn" and op.get("obj") not in self.cand:
            return
        if fired and out[0] == "err":
            self.count("evaluations failed by fault")
            return
        if fired and "faulteval" not in self.checks:
            return
        try:
            if op["op"] == "fn":
                where = op["f"]
                want = [self.oracle.fn(op["f"], rec["args"], rec["kw"])]
                c = [None]
            else:
                cls = self.cls[op["obj"]]
                where = cls.name + "." + op["m"]
                c = self.cand[op["obj"]]
                if c is None:
                    return
                want = [self.oracle.call(cls, s, op, rec.get("args"), rec.get("kw")) for s in c]
        except Unknown:
            self.count("reference unavailable")
            return
        ok = [j for j, w in enumerate(want) if same_outcome(out, w)]
        if not ok:
            # not equal: is the reference itself that sensitive to the last bit of its inputs?
            for j, w in enumerate(want):
                var = self.oracle.variants(op["f"] if op["op"] == "fn" else cls, c[j], op, rec.get("args"), rec.get("kw"))
                if within_conditioning(out, w, var):
                    ok.append(j)
                    self.count("results compared up to the conditioning of the formula")
        if not ok:
            self.bad("wrong-under-fault" if fired else "wrong-result", where, i, "got %s, a fresh object in a fresh process gives %s%s" % (
                brief(out), brief(want[0]), " (fault %s)" % rec["fault"] if fired else ""))
            return
        if op["op"] != "fn" and len(ok) < len(c):
            self.cand[op["obj"]] = [c[j] for j in ok]
        self.count("results compared")

    def on_obs(self, op, rec, i):
        for o, d in rec["obs"].items():
            cls = self.cls.get(o)
            if cls is None:
                continue
            if "domain" in self.checks:
                for p, kind in cls.params.items():
                    if d[p] == ("absent",):
                        continue
                    self.count("domain checks")
                    if d[p][0] in ("raises", "other") or not kind.in_domain(raw(d[p]), None):
                        self.bad("out-of-domain", cls.name + "." + p, i, "%s.%s holds %s" % (o, p, show(d[p])))
                        return
            c = self.cand.get(o)
            if c is None or "readback" not in self.checks:
                continue
            left, why = [], None
            for s in c:
                w = self.mismatch(cls, s, d)
                if w is None:
                    left.append(s)
                elif why is None:
                    why = w
            self.count("parameter sets compared")
            if not left:
                p, want, got = why
                kind = "readback" if len(c) == 1 else "torn-state"
                about = "" if op.get("obj") == o or op.get("new") == o else " (operation was on %s)" % op.get("obj", op["op"])
                self.bad(kind, cls.name + "." + p, i, "%s.%s reads %s, expected %s%s" % (o, p, show(got), show(want), about))
                return
            self.cand[o] = left

    def mismatch(self, cls, st, d):
        for p in cls.params:
            if not agrees(st[p], d[p]):
                return (p, st[p], d[p])
        if "views" in self.checks:
            for v, f in cls.views.items():
                with np.errstate(all="ignore"):
                    want = f(st)
                if not agrees(want, d[v], 1e-9):
                    return (v, want, d[v])
        return None

    def on_held(self, op, rec, i):
        for r, h in rec["held"].items():
            self.count("held results checked")
            if r in self.held and self.held[r] != h and op.get("res") != r:
                self.bad("result-changed", str(op.get("f") or op.get("m") or op.get("p") or op["op"]), i, "result %s returned earlier changed when %s ran" % (r, op["op"]))
                return
        self.held = dict(rec["held"])


def _short(v):
    v = value_of(v) if not isinstance(v, dict) else v
    return repr(v)[:100]
