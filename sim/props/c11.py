"""C11: sources survive copying, pickling and restart unchanged."""
from .. import gen, seq, spec

KIND = "lean"
CHECKS = ["readback", "views", "eval", "copy"]
QUICK, THOROUGH = 6300, 150000
NEED = ["copies.copy", "copies.deepcopy", "copies.pickle", "sources restored after a crash", "sources restored"]
RULE = ("one seed = one history of one class: build, assign (also rejected and interrupted), evaluate, then copy / deepcopy / pickle at arbitrary points, with the copying itself sometimes interrupted or out of "
        "memory, operations on originals and copies mixed, arrays handed out by one object changed in place, and 0-3 crashes after which a new process has nothing but the saved pickles; after every operation "
        "all parameters and views of all live objects are compared with the model and evaluations with a fresh object; non-trivial = at least one copy or restored source")
STUB = ["process crash and restart: forked processes that share nothing but the saved bytes", "callers"]


def make(seed, tier="quick"):
    cls = spec.CLASSES[seed % len(spec.CLASSES)]
    g = gen.Gen(seed, [cls])
    rng = g.rng
    g.new(full=rng.choice([0.0, 0.5, 1.0]))
    crashes = rng.choice([0, 1, 1, 2, 3])
    ids = []
    for seg in range(crashes + 1):
        if seg:
            g.crash()
            for i in rng.sample(ids, min(len(ids), rng.choice([1, 1, 2]))):
                o = g.load(i)
                g.call(o, again=0.8)
            if not g.objs:
                g.new()
        for _ in range(rng.randint(2, 7 if tier == "quick" else 14)):
            k = rng.random()
            o = g.pick()
            if k < 0.22:
                g.set(o)
                if rng.random() < 0.4:
                    g.call(o, again=0.7)
            elif k < 0.38:
                g.call(o, again=0.5)
            elif k < 0.66 and len(g.objs) < 7:
                if rng.random() < 0.4:
                    g.call(o, again=0.5)
                if rng.random() < 0.12:
                    g.ops.append({"op": "cp", "how": rng.choice(["deepcopy", "pickle"]), "obj": o, "new": "f%d" % len(g.ops), "fault": g.fault(["int", "alloc"])})
                n = g.copy(o)
                for _ in range(rng.choice([1, 2, 3])):
                    x = rng.choice([o, n])
                    if rng.random() < 0.6:
                        g.set(x)
                    g.call(rng.choice([o, n]), again=0.8)
            elif k < 0.72:
                g.bad_set(o, hostile=rng.random() < 0.2)
            elif k < 0.78:
                g.set(o, fault=g.fault(["int", "alloc"]))
            elif k < 0.85:
                if len(g.objs) < 7 and rng.random() < 0.7:
                    g.copy(o)
                g.poke(o)
                g.call(g.pick(), again=0.5)
            elif k < 0.90 and len(g.objs) > 1:
                g.delete(o)
            else:
                ids.append(g.save(o))
        if seg < crashes:
            ids.append(g.save(g.pick()))
            if rng.random() < 0.5:
                o = g.pick()
                g.set(o) if rng.random() < 0.5 else g.call(o)
    if ids and rng.random() < 0.5:
        o = g.load(rng.choice(ids))
        g.call(o, again=0.8)
    return {"prop": "C11", "seed": seed, "ops": g.ops, "cfg": {"obs": True, "alloc": True, "segments": True}}


def run(plan):
    return seq.run(plan, CHECKS)


shrink = seq.shrink_candidates
