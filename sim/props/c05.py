"""C05: objects and results are isolated from each other and from the caller."""
from .. import gen, seq, spec
from .c04 import mostly

KIND = "lean"
CHECKS = ["readback", "views", "eval", "held"]
QUICK, THOROUGH = 14000, 120000
NEED = ["caller arrays changed in place", "results overwritten by caller"]
RULE = ("one seed = one history over 2-5 objects of one class (and copies of them, and objects left on their defaults) in which the caller keeps every array it passed and every result it got, "
        "changes the former and overwrites the latter, and writes into the arrays one object hands out for its parameters; after every operation all parameters of all objects are compared with the model and all results still held with what they were; "
        "non-trivial = at least one caller array changed or result overwritten after use")


def make(seed, tier="quick"):
    g = mostly(seed)
    rng = g.rng
    g.pbuf = 0.9
    o = g.new(full=rng.choice([0.0, 0.5, 1.0]))
    g.new(full=rng.choice([0.0, 0.5]))
    for _ in range(rng.randint(5, 12)):
        k = rng.random()
        o = g.pick()
        if k < 0.2:
            g.set(o)
            if rng.random() < 0.5:
                g.mutate()
        elif k < 0.38:
            g.mutate()
        elif k < 0.50:
            g.call(o, keep=1.0)
            g.scribble()
            g.call(o, again=1.0, keep=0.8)
        elif k < 0.67:
            g.call(o, keep=0.9, again=0.6)
        elif k < 0.75:
            g.new(full=rng.choice([0.0, 0.0, 0.6]))
        elif k < 0.81 and len(g.objs) < 6:
            g.copy(o, rng.choice(["copy", "deepcopy"]))
        elif k < 0.84:
            g.scribble()
        elif k < 0.88:
            g.poke(o)
            g.new(full=rng.choice([0.0, 0.0, 0.6]))
            g.call(g.pick(), again=0.7)
        elif k < 0.96:
            op = g.fn(keep=1.0, again=0.3)
            g.scribble()
            if rng.random() < 0.5:
                g.fn(again=1.0)
            else:
                g.fn(of=op["f"])
        else:
            g.fn(keep=0.9)
            if rng.random() < 0.5:
                g.mutate()
    g.new(full=0.0)
    g.call(g.pick(), again=0.8)
    return {"prop": "C05", "seed": seed, "ops": g.ops, "cfg": {"obs": True, "held": True}}


def run(plan):
    return seq.run(plan, CHECKS)


shrink = seq.shrink_candidates
