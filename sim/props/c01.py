"""C01: evaluation depends only on the current parameters and arguments."""
from .. import gen, seq, spec

KIND = "lean"
CHECKS = ["eval"]
QUICK, THOROUGH = 9000, 150000
NEED = ["results compared"]
RULE = ("one seed = one history of 8-30 operations over 1-4 objects of one class (plus module functions): construct, assign, evaluate, evaluate again after changing "
        "exactly one thing (a parameter, one entry of a caller array in place, an option, the object), rejected and interrupted operations, deletion with address reuse; "
        "non-trivial = at least one result compared with the pristine-process reference after something changed; distinct = distinct sequence of (operation, target, ending, fault site)")


def make(seed, tier="quick"):
    if seed % 2:
        cls = spec.CLASSES[seed % len(spec.CLASSES)]
        g = gen.Gen(seed, [cls])
    else:                # each method of each class in turn, with each of its parameters
        cls, m, p = gen.TRIPLES[seed // 2 % len(gen.TRIPLES)]
        g = gen.Gen(seed, [cls]).focus(m, p)
    rng = g.rng
    fnmix = rng.random() < 0.25
    o = g.new(full=rng.choice([0.2, 0.6, 1.0]))
    if rng.random() < 0.3:
        g.mutate()
    g.call(o)
    n = rng.randint(5, 14) if tier == "quick" else rng.randint(5, 40)
    for _ in range(n):
        k = rng.random()
        o = g.pick()
        if k < 0.36:
            g.set(o)
            g.call(o, again=0.85)
        elif k < 0.50:
            if g.mutate():
                if rng.random() < 0.3:
                    g.mutate()
            g.call(o, again=0.9)
        elif k < 0.60:
            if g.last[o] and rng.random() < 0.7:
                o2 = g.clone_with_change(o)
            else:
                o2 = g.new(full=rng.choice([0.2, 1.0]))
            g.call(o2, again=0.8)
            if rng.random() < 0.4:
                g.call(o, again=0.9)
        elif k < 0.66 and len(g.objs) > 1:
            g.delete(o)
            if rng.random() < 0.3:
                g.ops.append({"op": "gc"})
            o2 = g.new()
            g.call(o2)
        elif k < 0.72:
            g.bad_set(o, hostile=rng.random() < 0.3)
            g.call(o, again=0.8)
        elif k < 0.80:
            f = g.fault(["int", "int", "alloc"])
            if rng.random() < 0.5:
                g.call(o, again=0.7, fault=f)
            else:
                g.set(o, fault=f)
            g.call(o, again=0.8)
        elif k < 0.84:
            g.call(o, bad=True)
            g.call(o, again=0.8)
        elif k < 0.88 and g.results:
            g.scribble()
            g.call(o, again=0.9)
        elif k < 0.91 and g.poke_judged(o):
            g.call(o, again=0.9)
        elif fnmix or k > 0.96:
            g.fn(again=0.5)
            if rng.random() < 0.5:
                g.mutate()
                g.fn(again=0.9)
        else:
            g.call(o, again=0.5)
    return {"prop": "C01", "seed": seed, "ops": g.ops, "cfg": {"alloc": True}}


def run(plan):
    return seq.run(plan, CHECKS)


shrink = seq.shrink_candidates
