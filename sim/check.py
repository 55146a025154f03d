"""python -m sim.check PROPERTY : explore many seeded simulations, report, write evidence."""
import importlib
import json
import os
import selectors
import shutil
import signal
import subprocess
import sys
import time

from . import build
from .paths import VERIF, EVIDENCE, REPLAYS, PYTHON

FINDINGS = os.path.join(VERIF, "known-findings.txt")


class Worker:
    def __init__(self, prop, bd, hashseed="0"):
        r, w = os.pipe()
        env = dict(os.environ)
        env.update(PYTHONHASHSEED=hashseed, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1",
                   MPLBACKEND="Agg", MPLCONFIGDIR=os.path.join(build.BUILD, "mpl"), TZ="UTC", LC_ALL="C.UTF-8", PYTHONWARNINGS="ignore")
        env.pop("PYTHONPATH", None)
        self.log = open(os.path.join(build.BUILD, "worker-%s-%d.log" % (prop, os.getpid())), "ab")
        # fd 3 of the child is the write end
        self.p = subprocess.Popen([PYTHON, "-m", "sim.worker", prop, bd], cwd=VERIF, env=env, stdin=subprocess.PIPE,
                                  stdout=self.log, stderr=self.log, pass_fds=(), close_fds=False,
                                  preexec_fn=lambda: (os.setsid(), os.dup2(w, 3, inheritable=True)))
        os.close(w)
        self.r = r
        self.buf = b""
        self.done = False

    def send(self, c):
        self.p.stdin.write((json.dumps(c) + "\n").encode())
        self.p.stdin.flush()

    def feed(self):
        """Whole messages that have arrived, or None at end of stream."""
        b = os.read(self.r, 1 << 20)
        if not b:
            return None
        self.buf += b
        *lines, self.buf = self.buf.split(b"\n")
        return [json.loads(x) for x in lines if x]

    def ask(self, c, timeout):
        self.send(c)
        return self.recv(timeout)

    def recv(self, timeout):
        sel = selectors.DefaultSelector()
        sel.register(self.r, selectors.EVENT_READ)
        end = time.monotonic() + timeout
        while True:
            if not sel.select(max(0.0, end - time.monotonic())):
                raise TimeoutError
            m = self.feed()
            if m is None:
                raise EOFError("simulator process ended (see %s)" % self.log.name)
            if m:
                return m[0]

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()
        os.close(self.r)
        self.log.close()


def fresh(prop, bd):
    w = Worker(prop, bd)
    w.recv(180)
    return w


def known():
    """Findings that are recorded rather than repaired: lines 'known: property=<id> kind=<kind> where=<where> <text>'."""
    out = []
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            if l.startswith("known: "):
                t = l[len("known: "):].split(None, 3)
                d = dict(x.split("=", 1) for x in t[:3])
                d["text"] = t[3].strip() if len(t) > 3 else ""
                out.append(d)
    return out


def matches(k, prop, v):
    return k["property"] == prop and k["kind"] == v["kind"] and k["where"] == v["where"]


def confirm(prop, bd, plan, viol):
    w = fresh(prop, bd)
    try:
        r = w.ask({"cmd": "plan", "plan": plan}, 400)
    finally:
        w.kill()
    for v in r["viol"]:
        if v["kind"] == viol["kind"] and v["where"] == viol["where"]:
            return r
    return None


def describe(plan):
    out = []
    for i, op in enumerate(plan.get("ops", [])):
        out.append("%d: %s" % (i, json.dumps(op)[:400]))
    return out


def report(prop, bd, seed, plan, viol, budget):
    """Confirm in a fresh process, minimise, confirm again, write the replay file. None if it does not reproduce."""
    r = confirm(prop, bd, plan, viol)
    if r is None:
        return None
    plan = r["resolved"] or plan
    try:
        w = fresh(prop, bd)
        try:
            s = w.ask({"cmd": "shrink", "plan": plan, "viol": viol, "budget": budget}, budget + 400)
        finally:
            w.kill()
    except (TimeoutError, EOFError):
        s = {"plan": plan, "viol": viol, "tried": 0}
    r2 = confirm(prop, bd, s["plan"], viol)
    if r2 is None:
        s = {"plan": plan, "viol": viol, "tried": s["tried"]}
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, "%s-seed%d.json" % (prop, seed))
    with open(path, "w") as f:
        json.dump({"property": prop, "seed": seed, "violation": s["viol"], "schedule": describe(s["plan"]), "candidates_tried": s["tried"], "plan": s["plan"]}, f, indent=1)
    return path, s["viol"]


def main():
    prop = sys.argv[1].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    vseed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    m = importlib.import_module("sim.props." + prop.lower())
    bd = build.ensure()
    os.makedirs(EVIDENCE, exist_ok=True)
    n = int(os.environ.get("SIM_RUNS", 0)) or (m.QUICK if tier == "quick" else m.THOROUGH)
    cap = float(os.environ.get("SIM_CAP", 0)) or (240.0 if tier == "quick" else 5400.0)
    nw = int(os.environ.get("SIM_WORKERS", 0)) or max(1, min(8, os.cpu_count() or 1))
    base = vseed * 10 ** 7
    t1 = time.time()
    deadline = t1 + cap
    ws = [Worker(prop, bd) for _ in range(nw)]
    sel = selectors.DefaultSelector()
    for i, w in enumerate(ws):
        w.send({"cmd": "seeds", "a": base + i, "b": base + n, "step": nw, "tier": tier, "deadline": deadline})
        sel.register(w.r, selectors.EVENT_READ, w)
    runs = steps = 0
    stats, sigs, notes, samples, unrep, knowns, events = {}, set(), {}, [], 0, {}, []
    nontriv = 0
    hit = None
    dead = None
    ks = known()
    live = len(ws)
    end = deadline + 300
    while live and hit is None:
        evs = sel.select(timeout=max(0.1, end - time.time()))
        if not evs:
            dead = "simulator processes stopped answering"
            break
        for key, _ in evs:
            w = key.data
            msgs = w.feed()
            if msgs is None:
                sel.unregister(w.r)
                live -= 1
                if not w.done:
                    dead = "a simulator process ended unexpectedly (%s)" % w.log.name
                continue
            for r in msgs:
                if "ready" in r:
                    continue
                if "done" in r:
                    w.done = True
                    w.send({"cmd": "quit"})
                    continue
                runs += 1
                steps += r["steps"]
                for k, v in r["stats"].items():
                    stats[k] = stats.get(k, 0) + v
                if r.get("note"):
                    k = r["note"].strip().splitlines()[-1][:200]
                    notes[k] = notes.get(k, 0) + 1
                    events.append((r["seed"], "note"))
                else:
                    if any(r["stats"].get(k) for k in m.NEED):
                        nontriv += 1
                        sigs.add(r["sig"])
                    events.append((r["seed"], r["sig"]))
                if "plan" in r and not r["viol"] and len(samples) < 3:
                    samples.append({"seed": r["seed"], "reached": r["sig"], "plan": _trim(r["plan"])})
                if r["viol"] and hit is None:
                    v = r["viol"][0]
                    kn = [k for k in ks if matches(k, prop, v)]
                    if kn:
                        knowns[kn[0]["text"]] = knowns.get(kn[0]["text"], 0) + 1
                        continue
                    try:
                        rep = report(prop, bd, r["seed"], r["resolved"] or r["plan"], v, 60 if tier == "quick" else 600)
                    except (TimeoutError, EOFError) as e:
                        rep = None
                        notes["while confirming: %r" % (e,)] = 1
                    if rep is None:
                        unrep += 1
                        notes["not reproduced in a fresh process: %s at %s" % (v["kind"], v["where"])] = 1
                    else:
                        hit = (rep, r["seed"])
    for w in ws:
        w.kill()
    wall = time.time() - t0
    search = max(time.time() - t1, 1e-9)
    if os.environ.get("SIM_EVENTS"):
        with open(os.environ["SIM_EVENTS"], "w") as f:
            json.dump(sorted(events), f)
    faults = {k[len("fault."):-len(".fired")]: v for k, v in sorted(stats.items()) if k.startswith("fault.") and k.endswith(".fired")}
    missed = {k[len("fault."):-len(".not reached")]: v for k, v in sorted(stats.items()) if k.startswith("fault.") and k.endswith(".not reached")}
    ev = {"property": prop, "tier": tier, "seed": vseed, "level": m.LEVEL if hasattr(m, "LEVEL") else "exploration", "wall_s": round(wall, 2), "violations": 1 if hit else 0,
          "coverage": {"evaluations": runs, "distinct_nontrivial": len(sigs), "rule": m.RULE, "samples": samples,
                       "nontrivial_runs": nontriv, "planned_runs": n, "first_seed": base, "simulated_runs_per_hour": int(runs / search * 3600), "workers": nw,
                       "simulated_steps": steps, "faults_fired": faults, "faults_armed_but_not_reached": missed,
                       "counters": {k: v for k, v in sorted(stats.items()) if not k.startswith("fault.")},
                       "distinct_measure": "distinct sequences of (operation, target, ending, fault site), or of schedules, per non-trivial run",
                       "real_components": m.REAL if hasattr(m, "REAL") else REAL, "stubbed_components": m.STUB if hasattr(m, "STUB") else STUB,
                       "harness_notes": notes, "not_reproduced": unrep, "known_findings_seen": knowns,
                       "stopped_early": bool(runs < n)},
          "assumptions": m.ASSUME if hasattr(m, "ASSUME") else ASSUME}
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for d in os.listdir(build.BUILD):
        if d.startswith("worker-%s-%d" % (prop, os.getpid())) and not dead:
            os.unlink(os.path.join(build.BUILD, d))
    print("%s: %d simulated runs (%d/hour), %d distinct non-trivial, %d steps, faults fired %s, %.1f s" % (
        prop, runs, ev["coverage"]["simulated_runs_per_hour"], len(sigs), steps, faults, wall))
    for k in ks:
        if k["property"] == prop:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
    if hit:
        (path, v), seed = hit
        print("seed %d: %s at %s: %s" % (seed, v["kind"], v["where"], v["detail"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if dead:
        print("ERROR: " + dead)
        return 2
    bad = sum(notes.values())
    if runs == 0 or bad > max(3, 0.2 * runs):
        print("ERROR: %d of %d runs gave no verdict: %s" % (bad, runs, sorted(notes.items(), key=lambda t: -t[1])[:2]))
        return 2
    return 0


REAL = ["geoana's Python code from /repo's working tree", "geoana's Cython/C++ kernels compiled from /repo's working tree", "numpy, scipy, libdlf"]
STUB = ["caller, faults and clock: simulator"]
ASSUME = ["numpy, scipy and CPython are correct", "interrupts arrive where CPython checks for signals (function entry, after calls, backward jumps) in geoana's own frames"]


def _trim(p, n=4000):
    s = json.dumps(p)
    return p if len(s) <= n else s[:n] + "..."


if __name__ == "__main__":
    sys.exit(main())
