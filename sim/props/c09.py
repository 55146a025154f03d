"""C09: evaluation under faults gives the right answer or an error; afterwards all is well."""
from .. import gen, seq, spec

KIND = "lean"
CHECKS = ["faulteval", "eval", "readback"]
QUICK, THOROUGH = 12800, 200000
NEED = ["evaluations failed by fault", "fault.int.fired", "fault.alloc.fired", "fault.new.fired", "fault.fp.fired", "fault.disk.fired"]
RULE = ("one seed = one object (or a module function), an evaluation under a fault (interrupt at a chosen point, n-th array allocation or n-th C++ allocation failing, floating-point trapping, "
        "filter file missing, unreadable, cut short or damaged), repeated under further faults, then without any; every returned value is compared with the pristine reference, the object's "
        "parameters with the model, and the process must survive; non-trivial = at least one fault fired inside an evaluation")


PAIRS = [(c, m) for c in spec.CLASSES for m in c.methods]


def one_method(seed):
    """One method of one class under one fault after another, often at and around the source."""
    cls, m = PAIRS[seed // 2 % len(PAIRS)]
    g = gen.Gen(seed, [cls])
    rng = g.rng
    o = g.new(full=rng.choice([0.0, 0.5, 1.0]))
    if rng.random() < 0.4:               # in its simplest position, where tiny and huge coordinates survive the change of coordinates
        for p, v in (("location", spec.A([0.0, 0.0, 0.0])), ("orientation", {"t": "s", "v": "Z"})):
            if p in cls.params and g.acceptable(cls, g.objs[o][1], p, g.val(v)):
                g.ops.append({"op": "set", "obj": o, "p": p, "v": v})
                g.objs[o] = (cls, spec.apply_set(cls, g.objs[o][1], p, g.val(v)))
    for _ in range(rng.randint(1, 3)):
        kind = rng.choice(["fp", "fp", "fp", "int", "alloc", "alloc"])
        g.pspec = 1.0 if kind == "fp" else 0.5
        g.pextreme = 0.7 if kind == "fp" else 0.0
        g.call(o, again=0.2, of=m, fault=g.fault([kind]))
        g.call(o, again=0.9, of=m)
        if rng.random() < 0.2:
            g.set(o)
    return {"prop": "C09", "seed": seed, "ops": g.ops, "cfg": {"obs": True, "alloc": True}}


def make(seed, tier="quick"):
    if seed % 2:
        return one_method(seed)
    plan = mixed(seed // 2)
    plan["seed"] = seed
    return plan


def mixed(seed):
    k = seed % (len(spec.CLASSES) + 4)
    cls = spec.CLASSES[k] if k < len(spec.CLASSES) else spec.BY_NAME[gen.LAYERED]
    g = gen.Gen(seed, [cls])
    rng = g.rng
    layered = cls.name == gen.LAYERED
    kinds = ["int", "int", "alloc", "alloc", "fp"] + (["disk"] * 4 if layered else [])
    usefn = rng.random() < 0.3
    o = g.new(full=rng.choice([0.5, 1.0]))
    if layered and rng.random() < 0.7:          # the filter is read on the first use of the process
        usefn = False
        g.call(o, fault=g.fault(["disk"]))
        g.call(o, again=0.9)
    elif rng.random() < 0.3:
        g.call(o)
    for _ in range(rng.randint(1, 4)):
        if usefn:
            if rng.random() < 0.4:
                f = spec.FN_BY_NAME[rng.choice(["kernels.rTE_forward", "kernels.rTE_gradient", "kernels.rTE_gradient"])]
                a, kw = f.gen(rng)
                g.ops.append({"op": "fn", "f": f.name, "args": a, "kw": kw, "fault": g.fault(["new", "new", "alloc"])})
                g.lastfn.append({"op": "fn", "f": f.name, "args": a, "kw": kw})
            else:
                g.fn(again=0.3, fault=g.fault(["int", "alloc", "fp"]))
            g.fn(again=1.0)
        else:
            n = rng.choice([1, 1, 2])
            for _ in range(n):
                g.call(o, again=0.5, fault=g.fault(kinds))
            g.call(o, again=0.9)
        if rng.random() < 0.3:
            g.set(o)
            g.call(o, again=0.7)
    return {"prop": "C09", "seed": seed, "ops": g.ops, "cfg": {"obs": True, "alloc": True}}


def run(plan):
    return seq.run(plan, CHECKS, died_is="evaluation")


shrink = seq.shrink_candidates
