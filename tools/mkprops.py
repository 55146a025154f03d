"""Writes /verif/properties.jsonl (kept as code so that long texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, **kw):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=dict(files=files, mechanism=mech, **kw)))
EM = ["geoana/em/base.py", "geoana/em/fdem/base.py", "geoana/em/fdem/wholespace.py", "geoana/em/fdem/halfspace.py",
      "geoana/em/fdem/layered.py", "geoana/em/tdem/base.py", "geoana/em/tdem/wholespace.py", "geoana/em/tdem/halfspace.py",
      "geoana/em/static/wholespace.py", "geoana/em/static/halfspace.py", "geoana/em/static/sphere.py",
      "geoana/em/static/freespace.py"]
SRC = EM + ["geoana/gravity.py", "geoana/shapes.py", "geoana/earthquake/oksar.py"]
def m(name, where): return dict(name=name, where=where)

prop("C01", "Evaluation depends only on current parameters and arguments",
 "Evaluating any field, potential, kernel or coordinate function gives the same values, shape and type as evaluating it on a freshly built object with the same current parameters in a freshly started process. This holds after any history of constructions, re-assignments, earlier evaluations, rejected or interrupted operations, discarded objects, and argument arrays whose contents the caller changed in between.",
 ["histories", "inputs", "fault_sequences"],
 "every sequence of operations and aborted operations on any mix of objects sharing the process, before the evaluation",
 "The tests evaluate freshly built objects once or twice; they never replay one evaluation after a long mixed history, after an aborted call, or with the same array object holding new numbers, which is what a stale cache or leaked scratch buffer needs.",
 SRC + ["geoana/spatial.py", "geoana/kernels/"], [m("evaluation methods read every parameter through its getter and keep no derived state", "all classes"), m("third-party filter table is only read", "geoana/em/fdem/layered.py magnetic_field")],
 observe_at=["return values of public methods, properties and functions"])
prop("C02", "Parameters read back the last accepted assignment, consistently",
 "Every public parameter reads back the value last successfully assigned to it (converted or normalised as documented), no matter in which order parameters were assigned, and assigning one parameter never changes another unless they are documented as two views of the same quantity. Alternative views of one quantity (resistivity and conductivity, mass and density, prism bounds with volume, centre, mass and moment, nodes with segment count and location) and the fields computed from them always agree.",
 ["histories"], "every order and number of accepted assignments and constructions over all parameters of all classes",
 "Tests set one or two parameters in one order and check that attribute only; interactions between parameters and between views over long assignment sequences are not sampled.",
 SRC, [m("one private attribute per parameter, derived views computed on read", "property setters in every class")],
 observe_at=["public attributes", "evaluation results"])
prop("C03", "A failed or interrupted assignment changes nothing or everything",
 "If assigning a parameter raises, for an invalid value, a value whose conversion fails, an interrupt or a memory failure at any point, the object afterwards behaves entirely as before the assignment or entirely as after a successful one: all parameters, all views of them and all evaluated fields agree on one of the two. A value rejected as invalid always leaves the object exactly as before, and a later valid assignment works normally.",
 ["fault_sequences", "histories", "crash_points"], "every parameter of every class, every invalid value, and every instant at which the assignment can be interrupted or run out of memory",
 "Tests check that bad values raise, not what the object is afterwards, and cannot place an interrupt or allocation failure between two statements of a setter.",
 SRC, [m("validate first, then a single store to the private attribute", "property setters"), m("whole-space helper sources are derived on demand", "geoana/em/static/halfspace.py")],
 observe_at=["public attributes and evaluations after the failed assignment"])
prop("C04", "Nothing the caller passes in is ever modified",
 "Arrays, lists, dictionaries and objects passed to any constructor, setter, method or function hold exactly the same contents and flags after the call as before, whether the call succeeds, raises or is interrupted half way. Read-only arrays are accepted wherever writable ones are and give the same result.",
 ["inputs", "fault_sequences"], "every public entry point, every layout of argument (contiguous, strided, Fortran, float, integer, read-only), and every instant of interruption",
 "Tests do not compare arguments before and after the call, never pass read-only or strided views, and cannot look at the argument when the call died in the middle.",
 SRC + ["geoana/spatial.py", "geoana/utils.py", "geoana/plotting_utils.py", "geoana/kernels/"], [m("arguments are copied or only read; in-place arithmetic only on own temporaries", "all entry points")],
 observe_at=["caller-owned arrays and dictionaries"])
prop("C05", "Objects and results are isolated from each other and from the caller",
 "Changing one object, changing an array that was earlier passed to a constructor, setter or evaluation, or overwriting an array an evaluation returned never changes the parameters or later results of any object, nor the defaults of objects created later. Results already returned by evaluations keep their values whatever is done afterwards.",
 ["histories", "inputs"], "every interleaving of operations on several objects, caller arrays and returned arrays in one process",
 "Each test uses its own objects and throws the results away, so aliasing between two objects, with a default argument, or with a reused output buffer is never observed.",
 SRC + ["geoana/kernels/"], [m("array parameters copied on assignment", "property setters"), m("evaluations allocate fresh outputs", "all evaluation methods")],
 observe_at=["held results", "parameters of other objects", "defaults of new objects"])
prop("C06", "Concurrent evaluation gives the sequential results",
 "Any number of threads may evaluate fields, potentials, kernels and coordinate functions at the same time, on shared or separate objects, and construct objects of their own; each call returns exactly what it would return running alone. This holds for every interleaving, including inside the compiled kernels that run without the interpreter lock.",
 ["schedules"], "every interleaving of evaluations and constructions by several threads (no thread re-assigns a parameter of an object another thread is using)",
 "The test suite is single-threaded; real threads would hit a given interleaving by luck only.",
 SRC + ["geoana/kernels/_extensions/rTE.pyx", "geoana/kernels/_extensions/_rTE.cpp", "geoana/kernels/_extensions/potential_field_prism.pyx"], [m("no shared mutable state in evaluations; extensions declared freethreading_compatible", "kernels and evaluation methods")],
 observe_at=["per-thread return values"])
prop("C07", "Missing optional components never change the numbers",
 "With the compiled kernels absent (either of them or both), or numba, matplotlib, utm or requests missing at import time, the package still imports, every numerical result is the same up to rounding as in the full installation, with the same shape, type and accept/reject decision, and the reported configuration is truthful. Only functions that need the missing component are affected, and those say so rather than failing obscurely or returning a wrong result.",
 ["configurations", "inputs", "fault_sequences"], "every subset of optional components failing to import, and all well-formed inputs including points on edges, faces, vertices and axes and any number of layers, frequencies and filter points",
 "Continuous integration imports one configuration; only a handful of kernel inputs are compared between the two implementations.",
 ["geoana/kernels/", "geoana/__init__.py", "geoana/utils.py", "geoana/plotting_utils.py", "geoana/earthquake/oksar.py", "geoana/em/fdem/layered.py", "geoana/gravity.py", "geoana/em/static/"],
 [m("try/except ImportError around each optional import; numpy twins of the compiled kernels", "geoana/kernels/*.py"), m("requires decorator", "geoana/utils.py")],
 observe_at=["results under each configuration", "show_config"])
prop("C08", "Process-wide state is left as found",
 "Importing, constructing, assigning and evaluating leave process-wide settings as they were: numpy error handling and print options, random generator states, warning filters, matplotlib settings, locale, environment, working directory, open files, threads, signal handlers, recursion and switch intervals, and the shared digital filter tables. This also holds when the operation raises or is interrupted half way.",
 ["histories", "fault_sequences"], "every public operation, completed, rejected or interrupted at any instant, under any prior setting of that state",
 "Tests never compare global state around a call, and cannot interrupt a call between changing and restoring a setting.",
 SRC + ["geoana/spatial.py", "geoana/utils.py", "geoana/kernels/", "geoana/plotting_utils.py"], [m("no global is assigned; libdlf tables are only read", "all modules")],
 observe_at=["snapshot of process-wide state before and after each operation"])
prop("C09", "Evaluation under faults: the right answer or an error, never less",
 "If memory runs out, an interrupt arrives, floating-point trapping is enabled, or the filter file cannot be read while a field, potential or kernel is being evaluated, the call either raises an exception or returns the exactly right result, and the process survives. Once the fault is gone, the same evaluation gives the right result and no object has changed.",
 ["fault_sequences", "crash_points"], "every evaluation and every instant at which an allocation (numpy or C++), an interrupt, a floating-point trap or a file read can fail",
 "No test injects a failing allocation, signal or read, so error paths and half-finished evaluations are never run.",
 SRC + ["geoana/kernels/_extensions/", "geoana/em/fdem/layered.py"], [m("evaluations build results in fresh arrays and return them whole", "evaluation methods"), m("C++ exceptions translated at the boundary", "geoana/kernels/_extensions/rTE.pyx")],
 observe_at=["return value or exception", "next evaluation", "process exit status"])
prop("C10", "Splitting a survey over workers gives the one-shot result",
 "Evaluating the fields or potentials of a source at many points, frequencies or times in one call equals evaluating it in any partition into chunks, in any order, with repeated or retried chunks, on copies of the source sent to other workers, and reassembling. The value at one point never depends on which other points are evaluated with it.",
 ["schedules", "fault_sequences", "inputs"], "every partition of the points, frequencies or times, every delivery order, loss, duplication and worker crash with retry",
 "Tests evaluate one fixed grid in one call; no test compares different batchings, and none sends sources to other processes.",
 SRC + ["geoana/kernels/", "geoana/spatial.py"], [m("evaluation is elementwise over observation points and over frequencies or times", "evaluation methods")],
 observe_at=["reassembled arrays"])
prop("C11", "Sources survive copying, pickling and restart unchanged",
 "A source copied, deep-copied or pickled at any point of its history and restored in the same process or in a new one after a crash has the same parameters and gives the same results as the original at the moment of the copy. From then on the two are independent: later changes to either one are not seen by the other.",
 ["histories", "crash_points"], "every class, every history before the copy, every instant of a crash after it, and every mix of later operations on original and copy",
 "The tests contain no copy, pickle or restart at all.",
 SRC, [m("plain attributes only, no unpicklable or shared derived state", "all classes")],
 observe_at=["parameters and results of the restored object and of the original"])
prop("C12", "An object never holds a parameter outside its documented domain",
 "At no time, after any sequence of constructions and assignments including rejected and interrupted ones, does an object hold a parameter of the wrong shape or type or outside its documented range (positive conductivity, permeability and length, non-negative radius, frequency, time, thickness, slip and depth, angle ranges, sources above or below ground as required, unit orientation, horizontal plane-wave polarisation). Every finite value inside the domain is accepted, in any order of assignment, and every finite value outside it is rejected both at construction and on later assignment.",
 ["histories", "inputs", "fault_sequences"], "every parameter of every class and every history of valid, invalid and interrupted assignments (relations between two independently assignable parameters, such as prism corners, are excluded)",
 "Tests try one or two bad values per parameter, mostly at construction, and never on an object with a history.",
 SRC, [m("range, shape and type checks in setters", "property setters")],
 observe_at=["acceptance of assignments", "public attributes"])
prop("C13", "Plotting draws only where asked and survives failing disks",
 "Plotting functions draw on the axes they are given, or on one new figure, and change nothing else: other figures and axes, plotting defaults, option dictionaries, data arrays and source objects stay as they were, and repeating a plot call draws the same thing. If saving fails (full disk, I/O error, missing directory) an error is raised, a later save works and its image file is complete.",
 ["histories", "fault_sequences"], "every sequence of plot calls with any option combination over several figures and axes, with write faults at any byte",
 "Tests draw each plot once on a new figure and look at nothing but the absence of an exception.",
 ["geoana/plotting_utils.py", "geoana/earthquake/oksar.py"], [m("all drawing goes through the given axes; options merged into new dictionaries", "geoana/plotting_utils.py plot2Ddata"), m("plot_interferogram, plot_mask", "geoana/earthquake/oksar.py")],
 observe_at=["artists per axes", "rcParams", "saved files"])
prop("C14", "The downloadable example gives complete data or an error, in bounded time",
 "Loading the earthquake example over the network returns the interferogram with exactly the bytes the server stores, or raises; it never returns partial, empty, stale or error-page content as data. When the server stops responding the call gives up within a bounded time, and a later call with the network back works.",
 ["fault_sequences", "schedules"], "every network behaviour: refused or reset connections, error statuses, truncated, empty, oversized or stalled responses, at any byte, and any sequence of such calls",
 "The only test that uses it needs the real network and exercises the good case.",
 ["geoana/earthquake/oksar.py"], [m("timeout, status check and size check on the response", "geoana/earthquake/oksar.py example")],
 observe_at=["returned interferogram data or exception", "simulated clock"])
prop("C15", "A long-running process accumulates nothing",
 "However often constructions, assignments, evaluations, copies, rejected values and interrupted or failing calls are repeated in one process, with the same or ever new values, the memory in use stays bounded: what the caller drops (sources, arguments, results, errors) is released, in Python and in the compiled kernels. The work done by a call does not grow with the number of earlier calls either.",
 ["histories", "fault_sequences"], "every loop body and every number of repetitions, including bodies whose calls raise or are interrupted at any point",
 "Tests make each call once or twice and never look at what stays behind.",
 ["geoana/", "geoana/kernels/_extensions"], [m("no module-level or per-object stores grow; kernels use automatic storage", "geoana/kernels/_extensions/_rTE.cpp, geoana/em/base.py, geoana/spatial.py")],
 observe_at=["memory in use after garbage collection", "function calls made by one round"])
# ---- properties outside this technique
NA = [
 ("C20", "Electromagnetic fields solve Maxwell's equations for the stated source",
  "Each frequency- and time-domain field equals the analytic solution for its source and medium at every point, frequency and time.",
  "tests compare against a second transcription of the same formulas at a few points", EM),
 ("C21", "Fields are the derivatives of their potentials",
  "Electric, magnetic and gravity fields and gradients equal the corresponding derivatives of the potentials at every regular point.",
  "tests check a few points with finite differences", ["geoana/gravity.py", "geoana/em/static/"]),
 ("C22", "Fields are linear in the source strength and superpose",
  "Fields scale linearly with current, moment, mass and magnetisation, and joined bodies give the sum of their parts.",
  "tests use unit sources", SRC),
 ("C23", "Coordinate conversions and rotations invert each other",
  "Cartesian, cylindrical and spherical conversions of points and vectors round-trip, and rotations map one normal exactly onto the other and preserve lengths.",
  "tests sample a few points", ["geoana/spatial.py"]),
 ("C24", "General solutions reduce to their limiting cases",
  "Layered earth with equal layers equals the half-space, low frequency equals static, a small loop equals a dipole, a distant prism equals a point mass.",
  "tests sample one or two limits", SRC),
 ("C25", "Reflection-coefficient gradients are the derivatives of the coefficients",
  "The returned sensitivities equal the derivatives of the reflection coefficients with respect to conductivity, permeability and thickness for every layering.",
  "tests run a derivative test at one model", ["geoana/kernels/tranverse_electric_reflections.py", "geoana/kernels/_extensions/_rTE.cpp"]),
 ("C26", "Fault displacement follows Okada's solution",
  "The simulated surface displacement and line-of-sight vectors equal Okada's analytic solution for every fault geometry.",
  "tests check line of sight only", ["geoana/earthquake/oksar.py"]),
]
for id, t, s, w, f in NA:
    prop(id, t, s, ["inputs"], "every input", w, f, [m("closed-form formulas", "evaluation code")])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as fh:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        fh.write(json.dumps(p) + "\n")
print(len(P))
