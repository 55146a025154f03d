"""One simulator process: reads commands (JSON lines) on stdin, answers on fd 3."""
import importlib
import json
import os
import sys
import time
import traceback

from . import boot


def result(m, plan):
    try:
        r = m.run(plan)
    except Exception:
        return {"note": "harness: " + traceback.format_exc()[-2500:], "viol": [], "stats": {}, "sig": "", "steps": 0}
    return {"viol": r.viol, "stats": r.stats, "sig": r.sig, "steps": r.steps, "note": r.note, "resolved": r.resolved}


def same(v, w):
    return v["kind"] == w["kind"] and v["where"] == w["where"]


def shrink(m, plan, viol, budget):
    """Greedy minimisation; a candidate is kept only if it shows the same violation (kind and place)."""
    end = time.monotonic() + budget
    tried = 0
    progress = True
    while progress and time.monotonic() < end:
        progress = False
        for cand in m.shrink(plan):
            if time.monotonic() > end:
                break
            tried += 1
            r = result(m, cand)
            hit = [v for v in r["viol"] if same(v, viol)]
            if hit:
                plan, viol, progress = r["resolved"] or cand, hit[0], True
                break
    return plan, viol, tried


def main():
    prop, bd = sys.argv[1], sys.argv[2]
    m = importlib.import_module("sim.props." + prop.lower())
    out = os.fdopen(3, "w", buffering=1)
    os.set_inheritable(3, False)
    boot.setup(bd, m.KIND)
    out.write(json.dumps({"ready": True}) + "\n")
    for line in sys.stdin:
        c = json.loads(line)
        if c["cmd"] == "seeds":
            for s in range(c["a"], c["b"], c["step"]):
                if time.time() > c["deadline"]:
                    break
                try:
                    plan = m.make(s, c["tier"])
                except Exception:
                    out.write(json.dumps({"seed": s, "note": "generator: " + traceback.format_exc()[-2500:], "viol": [], "stats": {}, "sig": "", "steps": 0}) + "\n")
                    continue
                r = result(m, plan)
                r["seed"] = s
                if r["viol"]:
                    r["plan"] = plan
                elif s < c["a"] + c["step"] * 2:
                    r["plan"] = plan
                out.write(json.dumps(r, default=str) + "\n")
            out.write(json.dumps({"done": True}) + "\n")
        elif c["cmd"] == "plan":
            r = result(m, c["plan"])
            out.write(json.dumps(r, default=str) + "\n")
        elif c["cmd"] == "shrink":
            p, v, n = shrink(m, c["plan"], c["viol"], c["budget"])
            out.write(json.dumps({"plan": p, "viol": v, "tried": n}, default=str) + "\n")
        elif c["cmd"] == "quit":
            break


if __name__ == "__main__":
    main()
