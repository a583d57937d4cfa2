#!/usr/bin/env python3
"""Writes MANIFEST.json from the property list and check.py's table."""
import json, os, re
HERE = os.path.dirname(os.path.abspath(__file__))
import importlib.util
spec = importlib.util.spec_from_file_location("check", os.path.join(HERE, "check.py"))
check = importlib.util.module_from_spec(spec); spec.loader.exec_module(check)
NOTE = {
    "C01": "shadow memory and a block registry judge every access, allocation and release",
    "C02": "a registry of live element addresses judges every construction, use and destruction",
    "C03": "every failed operation is followed by structural inspection and a fault-free retry against the value model",
    "C04": "a value model (shape, values, allocator per slot) is compared with every array after every operation",
    "C05": "allocator identities are predicted per operation; hooked allocators check construct/destroy",
    "C06": "allocations and element operations are forbidden (and the quota set to zero) during operations that must not need them",
    "C07": "as C01-C04, on arrays with in-object storage of several capacities and fallback allocators",
    "C08": "an address model of every view in a seeded chain of views, and of every write through them",
    "C09": "visits are recorded and compared with the documented sequence for every cancellation point and nesting",
    "C10": "all cells including padding and surroundings are compared with an index-wise model after every interrupted bulk operation",
    "C11": "an ordered term-by-term model of each reduction, with failures at every kind of point",
    "C12": "seeded interleavings at single memory accesses, with a happens-before race detector and a sequential oracle",
    "C13": "seeded interleavings of tasks writing disjoint parts, with per-task failures and retries, against the sequential result",
}
NA = {
    "C20": "a pure function of a shape's dims: no schedule, clock, fault, I/O or history can change it, so deterministic simulation has nothing to vary; the simulated worlds only use such shapes as inputs",
    "C21": "decided by the compiler (and performance): nothing of it executes, so no simulated execution can decide it",
    "C22": "single-threaded numeric programs over their input, with no fault, time, I/O or interleaving in the property; simulation would be plain input generation",
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
na = []
for p in props:
    i = p["id"]
    if i in check.PROPS:
        checks.append({
            "property": i,
            "quick_cmd": "./check.py --prop %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough ./check.py --prop %s" % i,
            "technique": "deterministic simulation with fault injection: seeded search over operation histories, fault plans and schedules",
            "level": "exploration",
            "level_note": "Seeded sampling, not proof: %s. The library's real code runs; allocators, elements, callbacks and the thread scheduler are simulated. Every violation is gated on an identical re-run and a fresh-process replay." % NOTE[i],
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "its simulated world is not built yet")})
json.dump({"version": 1, "setup_cmd": "./check.py --build", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the library's template parameters (allocator, element, shape, callable) are the seams. fix: commits repair defects the simulation found; see DESIGN.md and known_findings.txt."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
