"""python -m sim.replay FILE : execute a replay file in a fresh process; exit 1 if the violation shows again."""
import json
import sys

from . import build, check


def main():
    d = json.load(open(sys.argv[1]))
    bd = build.ensure()
    w = check.fresh(d["property"], bd)
    try:
        r = w.ask({"cmd": "plan", "plan": d["plan"]}, 600)
    finally:
        w.kill()
    for l in check.describe(d["plan"]):
        print(l)
    for v in r["viol"]:
        print("%s at %s: %s" % (v["kind"], v["where"], v["detail"]))
    if r["viol"]:
        print("VIOLATION property=%s replay=%s" % (d["property"], sys.argv[1]))
        return 1
    print("no violation", r.get("note") or "")
    return 0


if __name__ == "__main__":
    sys.exit(main())
