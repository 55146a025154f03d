"""C02: parameters read back the last accepted assignment, and views of one quantity agree."""
from .. import gen, seq, spec

KIND = "lean"
CHECKS = ["readback", "views", "eval"]
QUICK, THOROUGH = 18000, 120000
NEED = ["parameter sets compared"]
RULE = ("one seed = one history of assignments in random order (through every alias: resistivity, mass, location) on 1-3 objects of one class with rejected and failing ones in between; "
        "after every operation every parameter and view of every live object is compared with the model, and fields with a fresh object built from the primary parameters; "
        "non-trivial = at least one parameter set compared after an assignment")


def make(seed, tier="quick"):
    cls = spec.CLASSES[seed % len(spec.CLASSES)]
    g = gen.Gen(seed, [cls])
    rng = g.rng
    g.pbuf = rng.choice([0.2, 0.8])
    o = g.new(full=rng.choice([0.0, 0.5, 1.0]))
    order = spec.settable(cls)
    rng.shuffle(order)
    if rng.random() < 0.5:
        for p in order[: rng.randint(2, len(order))]:
            g.set(o, p)
    for _ in range(rng.randint(4, 12)):
        o = g.pick()
        k = rng.random()
        if k < 0.5:
            g.set(o)
        elif k < 0.62 and cls.aliases:
            a = rng.choice(list(cls.aliases))
            g.set(o, a)
            if rng.random() < 0.5:
                g.set(o, cls.aliases[a][0])
            g.call(o, again=0.5)
        elif k < 0.72:
            g.bad_set(o, hostile=rng.random() < 0.2)
        elif k < 0.80 and len(g.objs) < 4:
            g.clone_with_change(o) if rng.random() < 0.5 else g.new()
        elif k < 0.86:
            g.mutate()
        else:
            g.call(o)
    g.call(g.pick())
    return {"prop": "C02", "seed": seed, "ops": g.ops, "cfg": {"obs": True}}


def run(plan):
    return seq.run(plan, CHECKS)


shrink = seq.shrink_candidates
