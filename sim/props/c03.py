"""C03: a failed or interrupted assignment changes nothing or everything."""
from .. import gen, seq, spec

KIND = "lean"
CHECKS = ["readback", "views", "eval"]
QUICK, THOROUGH = 8000, 120000
NEED = ["assignments failed half way", "invalid values offered"]
RULE = ("one seed = one history in which most assignments fail: invalid values, values whose conversion raises, an interrupt at a chosen point CPython can deliver one, or the n-th array "
        "allocation failing; afterwards all parameters, views and several evaluations must agree with one of the two states, and a following valid assignment must work; "
        "non-trivial = at least one assignment really failed half way or was rejected")


def make(seed, tier="quick"):
    if seed % 2:
        cls = spec.CLASSES[seed % len(spec.CLASSES)]
        g = gen.Gen(seed, [cls])
    else:                # each parameter of each class in turn
        cls, p = gen.PARAMS[seed // 2 % len(gen.PARAMS)]
        g = gen.Gen(seed, [cls]).focus(p=p)
    rng = g.rng
    o = g.new(full=rng.choice([0.3, 1.0]))
    if rng.random() < 0.5:
        g.call(o)
    for _ in range(rng.randint(2, 6)):
        k = rng.random()
        o = g.pick()
        if k < 0.5:
            g.set(o, fault=g.fault(["int", "int", "int", "alloc"]))
        elif k < 0.62:
            g.bad_set(o, hostile=True)
        elif k < 0.9:
            g.bad_set(o)
        else:
            g.set(o)
        for _ in range(rng.choice([1, 1, 2, 3])):
            g.call(o, again=0.4)
        if rng.random() < 0.6:
            g.set(o)
            g.call(o, again=0.6)
        if rng.random() < 0.1 and len(g.objs) < 3:
            g.new()
    return {"prop": "C03", "seed": seed, "ops": g.ops, "cfg": {"obs": True, "alloc": True}}


def run(plan):
    return seq.run(plan, CHECKS)


shrink = seq.shrink_candidates
