"""Writes MANIFEST.json from the property modules that exist."""
import glob, json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("runtime monitor: differential oracle (extended-precision reference solver) over generated workloads", "an extended-precision solver with an error bound"),
 "C02": ("runtime monitor: differential oracle (extended-precision reference solver with all drift terms)", "an extended-precision solver with an error bound"),
 "C03": ("runtime monitor: exactness / nugget oracle at data locations on every backend", "the measured values themselves and the reference solver"),
 "C04": ("runtime monitor: cross-backend differential execution", "the other backends of the same object"),
 "C05": ("runtime monitor: metamorphic re-encoding of requests", "the same points requested one by one"),
 "C06": ("runtime monitor: brute-force neighbour oracle, event log of neighbour searches", "brute-force neighbour search and the reference solver"),
 "C07": ("runtime monitor: metamorphic relations (linearity, drift reproduction)", "pairs of executions"),
 "C08": ("runtime monitor: metamorphic relations (symmetries) and a reference for anisotropy", "pairs of executions and the definition in extended precision"),
 "C09": ("runtime monitor: differential oracle on the sphere, metamorphic longitude shifts", "great-circle distances in extended precision"),
 "C10": ("runtime monitor: conservation oracle (every pair counted once) over recomputed bins", "brute-force enumeration of all pairs"),
 "C11": ("runtime monitor: feasibility and local-optimality oracle on hooked fit results", "re-evaluated misfits at and around the fitted parameters"),
 "C12": ("runtime monitor: formula oracle for every model in Python and C", "formulas in extended precision"),
 "C13": ("runtime monitor: history oracle (replay of update/execute histories against fresh objects)", "freshly constructed objects"),
 "C14": ("runtime monitor: byte-exact snapshots of arguments, garbage injection, repetition", "snapshots and repeated executions"),
 "C15": ("runtime monitor: stress with injected preemption and re-entrancy, results against solo runs", "results of the same requests run alone"),
 "C16": ("runtime monitor: sequential kriging oracle for residuals and statistics", "a reference solver run on every prefix of the data"),
 "C17": ("AddressSanitizer + UndefinedBehaviorSanitizer builds, bounds-checked build, hostile workload", "the sanitizers and Cython's bounds checks"),
 "C18": ("runtime monitor: write/read round-trip oracle and independently rendered files", "the written values and an independent renderer"),
 "C19": ("runtime monitor: write/read round-trip oracle and independently rendered files", "the written values and an independent renderer"),
 "C20": ("fault injection: every truncation point and every single deletion/duplication in grid files", "the undamaged content"),
 "C21": ("runtime monitor: differential oracle against the wrapped classes over fit/predict/set_params histories", "direct calls of the kriging classes"),
 "C22": ("runtime monitor: model oracle for regression kriging over histories", "separately fitted regression model plus the kriging class"),
 "C23": ("runtime monitor: model oracle for classification kriging, isometry oracle", "separately fitted classifier plus the kriging class"),
 "C24": ("runtime monitor: rejection oracle over generated invalid requests, state compared afterwards", "an exception, and unchanged results afterwards"),
 "C25": ("runtime monitor: averaging oracle for repeated locations, pseudo-inverse against direct solving", "kriging of averaged data"),
 "C26": ("runtime monitor: bilinear interpolation oracle in every orientation", "bilinear interpolation in extended precision"),
 "C27": ("runtime monitor: variance invariants over pairs of problems", "pairs of executions"),
 "C28": ("runtime monitor: differential oracle against custom variogram functions", "the same variogram given as a function"),
 "C29": ("runtime monitor: cross-class differential execution", "another class solving the same problem"),
 "C31": ("runtime monitor: differential oracle original against copies (deepcopy, pickle, joblib, cloudpickle, other process)", "the original object"),
 "C32": ("runtime monitor: report oracle (parsed output, dissected figures) over update histories", "the requested parameters, the model in extended precision and the object's state"),
 "C33": ("fault injection into imports, differential oracle against the complete installation", "the same calls in the complete installation"),
 "C34": ("runtime monitor: snapshots of process-wide state, metamorphic repetition in other settings", "snapshots before the call, and the same call in other settings"),
 "C35": ("runtime monitor: allocator and block counters over repetition, weak references", "memory counters and weak references"),
 "C36": ("fault injection: exceptions and signals at random points of running calls, state snapshots", "snapshots before the call, and an undisturbed twin"),
 "C37": ("runtime monitor: non-interference oracle over NaN injections", "the same request with two ordinary numbers in the place"),
 "C38": ("runtime monitor: recorded warnings, results against the request without the ignored setting", "the warnings recorded, and the same call without the setting"),
 "C39": ("runtime monitor: differential oracle over equivalent spellings of a call (default left out, named, positional)", "the same call spelled differently"),
 "C40": ("runtime monitor: differential oracle over containers, element types and memory layouts of the same numbers", "the same numbers in another container"),
 "C41": ("runtime monitor: recording user functions and models, provenance of their arguments, differential oracle over the kinds of arrays they return", "calls of user functions and what they return"),
 "C42": ("runtime monitor: differential oracle against a pristine forked process over histories of neighbouring calls", "a call after a history and in a pristine process"),
}
LV = {"C20": "fault_enumeration"}
NA = {"C30": "a statement about every parameter set at once: observing executions can only compare the chosen parameters with the parameter sets that are tried, and the soft-L1 misfit is not convex, so a local optimiser does not provide it (C11 decides the local version)"}
checks, na = [], []
for c in sorted(T) + sorted(NA):
    if c in NA:
        na.append(dict(property=c, reason=NA[c])); continue
    if not os.path.exists(f"{R}/vf/props/{c}.py"):
        na.append(dict(property=c, reason="check under construction")); continue
    t, o = T[c]
    checks.append(dict(property=c, quick_cmd=f"./run.sh {c}", thorough_cmd=f"VERIF_TIER=thorough ./run.sh {c}",
        evidence_file=f"evidence/{c}.json", technique=t, level=LV.get(c, "exploration"),
        level_note=f"No violation in the executions observed, judged against {o}; reach is that of the seeded generators (counts in the evidence file). Trusts numpy/scipy, the interpreter and vf/."))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
  notes="No hooks in /repo: instrumentation is attached from outside (settrace, wrapped functions, sanitizer builds of the extension in /verif/.build). known_findings.txt lists the repaired defects.")
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
