"""Writes /verif/MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
CHECKS = {
    "C01": ("seeded operation histories with interrupts and allocation failures, judged against a fresh object in a pristine process",
            "Sampled histories of the 23 source classes and 45 functions; oracle is the real code on a fresh object, so an error that a fresh object shares is not seen."),
    "C02": ("seeded assignment/construction/copy histories against an executable model of parameters and views",
            "Every parameter and view of every live object is read after every operation; the model of the parameter surface (sim/spec.py) is trusted."),
    "C03": ("invalid, hostile, interrupted and out-of-memory assignments at seeded points, against a two-state model (before / after)",
            "Interrupts at CPython signal-check points inside geoana frames, failures of any numpy allocation; the parameter model is trusted."),
    "C04": ("seeded calls with interrupts and memory failures; exact fingerprints of everything the caller owns before and after",
            "Contents, strides, dtype and flags of arrays and their bases, lists, tuples; read-only variants compared with writable ones."),
    "C05": ("seeded histories in which the caller mutates arrays it passed, overwrites results and pokes parameter arrays, against the parameter model and frozen results",
            "Sampled histories over 2-6 objects of a class; copies made with copy.copy share arrays by definition."),
    "C06": ("seeded baton scheduler over real threads, with preemption at bytecode and at every basic block of the compiled kernels run without the lock",
            "Exactly one thread runs at a time; interleavings at bytecode/basic-block granularity, not weak memory; numpy/scipy internals are atomic between bytecodes."),
    "C07": ("import-time failure of any subset of optional components, same workload with and without",
            "Comparison to 1e-9 or the conditioning of the formula; zero frequencies and mixed-shape prism kernel calls excluded."),
    "C08": ("seeded prior process state, operations with interrupts and allocation failures, snapshot of process-wide state after every operation",
            "The list of process-wide state in sim/glob.py; state nobody can observe is not compared."),
    "C09": ("memory, C++ allocation, interrupt, floating-point-trap and filter-file faults at seeded points inside evaluations, right-or-raise against a pristine process",
            "Crashes inside numpy itself on an injected allocation failure are attributed by the crash handler and not counted against geoana."),
    "C10": ("discrete-event simulation of coordinator, workers and network (loss, duplication, reordering, stalls, crashes, retries); every chunk result against the one-shot result",
            "Elementwise comparison to 1e-9 or the conditioning of the formula; the layered sigma_hat helper is excluded."),
    "C11": ("seeded histories with copies, pickles, interrupted copies, crashes and restarts from the saved bytes, against the parameter model and fresh objects",
            "Processes restart from the same code version."),
    "C12": ("seeded constructions and assignments of valid, boundary, invalid and hostile values with interrupts and memory failures; domain checked after every operation",
            "Domains as documented and modelled in sim/spec.py; NaN and infinities are not claimed."),
    "C13": ("seeded plotting sessions with disk faults (full disk, size limit, I/O error at any byte, failing close, refused open) and interrupts, against the same call in a fresh process",
            "Structural comparison of artists plus decoded images; matplotlib itself is trusted."),
    "C14": ("simulated sockets, server and clock under the real HTTP stack: refusals, stalls, cuts at any byte, error pages, redirects, changed content",
            "Corruption that keeps the size and passes TLS cannot be detected by any client and is not generated."),
    "C15": ("long seeded loops of operations with interrupts, allocation failures and rejected values; memory in use and work per round measured in windows after a warm-up",
            "Growth of at least one block per round over three windows of 250 rounds counts as accumulation; stores bounded at about 200 entries are within the property."),
}
NA = {
    "C20": "Pure mathematics of a single call: no schedule, fault, history or multi-party behaviour is involved, so simulation has nothing to vary; needs analytic or numerical verification.",
    "C21": "A differential identity of pure functions; independent of schedules, faults and histories.",
    "C22": "An algebraic identity of pure functions; independent of schedules, faults and histories.",
    "C23": "Round trips of pure functions; independent of schedules, faults and histories.",
    "C24": "A limit relation between pure functions; independent of schedules, faults and histories.",
    "C25": "A derivative identity of one pure kernel; independent of schedules, faults and histories (the same kernel's behaviour under faults, threads and degraded installs is C06, C07 and C09).",
    "C26": "Correctness of a closed-form formula in one call; independent of schedules, faults and histories.",
}
m = {"version": 1, "setup_cmd": ". /opt/vp/env.sh && python -m sim.build",
     "checks": [{"property": p, "quick_cmd": "./check.sh %s" % p, "thorough_cmd": "VERIF_TIER=thorough ./check.sh %s" % p, "evidence_file": "evidence/%s.json" % p,
                 "technique": T + t, "level": "exploration",
                 "level_note": "Seeded search, not exhaustive: shows absence of violations on the runs explored; every violation is reproduced in a fresh process and minimised before it is reported. " + n}
                for p, (t, n) in CHECKS.items()],
     "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
     "notes": "No hooks in /repo: seams are the interpreter's trace function, numpy's allocation handler, import hooks, builtins.open, sockets under urllib3, and kernels rebuilt outside /repo with coverage callbacks."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
