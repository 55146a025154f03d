"""C12: an object never holds a parameter outside its documented domain."""
from .. import gen, seq, spec

KIND = "lean"
CHECKS = ["accept", "domain"]
QUICK, THOROUGH = 30000, 150000
NEED = ["invalid values offered", "fault.int.fired", "fault.alloc.fired"]
RULE = ("one seed = one history of constructions and assignments of one class with valid (including boundary) and invalid values (range, shape, type, non-convertible), in random order, some "
        "interrupted or out of memory; every parameter of every live object is tested against its domain after every operation, valid values must be accepted and invalid ones rejected; "
        "non-trivial = at least one invalid value offered or one fault fired")


def make(seed, tier="quick"):
    cls = spec.CLASSES[seed % len(spec.CLASSES)]
    g = gen.Gen(seed, [cls])
    rng = g.rng
    g.pbuf = 0.3
    o = g.new(full=rng.choice([0.0, 0.5, 1.0]))
    for _ in range(rng.randint(5, 14)):
        k = rng.random()
        o = g.pick()
        if k < 0.35:
            g.bad_set(o, hostile=rng.random() < 0.1)
        elif k < 0.55:
            g.bad_new(cls)
        elif k < 0.80:
            g.set(o)
        elif k < 0.90:
            g.set(o, fault=g.fault(["int", "alloc"]))
        elif len(g.objs) < 5:
            g.new()
    return {"prop": "C12", "seed": seed, "ops": g.ops, "cfg": {"obs": True, "alloc": True}}


def run(plan):
    return seq.run(plan, CHECKS)


shrink = seq.shrink_candidates
