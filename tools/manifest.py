#!/usr/bin/env python3
"""writes MANIFEST.json: python3 tools/manifest.py > MANIFEST.json"""
import json, sys

SAMPLED = ("Sampled, not proved: it holds on every generated case of this seed. ")
T = {
 "P01": ("differential property-based testing against a Held-Karp reference solver, seeded instance generators, shrinking",
         SAMPLED + "Trusts the reference solver (checked against complete enumeration in engine/) and a relative rounding tolerance of 1e-9."),
 "P02": ("property-based testing of the threaded solver against a Held-Karp oracle over generated instances, CPU affinities and schedules (workers held at generated points by an instrumented allocator; small cases interpreted by Miri under generated schedules with data race detection)",
         SAMPLED + "Interleavings are those the operating system produces, plus long preemptions forced at generated memory allocations, plus Miri's for small cases; not every interleaving can be forced."),
 "P03": ("property-based testing over generated instances, process counts and message schedules in a deterministic MPI simulator, oracle Held-Karp",
         SAMPLED + "The real solver code runs on a simulated MPI (vendor/mpi-sys under the real rsmpi) that chooses message order, sender choice, buffering and reduction order at random; the simulator's reading of the MPI standard is trusted."),
 "P04": ("schedule fuzzing of every MPI command in a deterministic MPI simulator with deadlock, mismatch and leak detection",
         SAMPLED + "The simulator's reading of the MPI standard is trusted; it flags any wait cycle, count, type or collective mismatch."),
 "P05": ("differential property-based testing of the MPI code paths in a deterministic MPI simulator against sequential reference models; the choice of the best pairing by a comparison of success counts over repeated runs",
         SAMPLED + "The simulator's reading of the MPI standard is trusted; the statistical comparison has a false-alarm chance of about 1e-8 per case."),
 "P06": ("property-based testing against a reference Kruskal and structural invariants, over generated matrices and exclusion sets",
         SAMPLED + "Trusts the Kruskal model and the rounding tolerance."),
 "P07": ("property-based testing against a reference 1-tree model", SAMPLED + "Trusts the reference model and the rounding tolerance."),
 "P08": ("property-based testing of the relation bound <= tour, on optimal tours and heuristic tours", SAMPLED + "Trusts the Held-Karp oracle for small n; for large n heuristic tours are upper bounds of the optimum."),
 "P09": ("property-based testing: every step of every tour must be greedy, overall result against the best of all starts", SAMPLED + "Random choices of the code under test are seeded through a patched rand crate."),
 "P10": ("property-based testing of output invariants over generated instances, seeds and modes", SAMPLED + "Random choices of the code under test are seeded through a patched rand crate."),
 "P11": ("property-based testing of the 3/2 ratio against Held-Karp, with an exact matching supplied by the harness", SAMPLED + "Trusts the Held-Karp and the bitmask matching oracle."),
 "P12": ("property-based testing of matching invariants and monotone improvement over generated vertex sets", SAMPLED + "Random choices of the code under test are seeded through a patched rand crate."),
 "P13": ("structured document fuzzing: generated instance -> XML in varied layout -> parser, compared with the generated model", SAMPLED + "Trusts the generator's XML writer, which stays inside the TSPLIB-XML form the documentation describes."),
 "P14": ("mutation fuzzing of valid documents with labelled corruptions that must be rejected; robustness fuzzing of the parser and command line", SAMPLED + "A panic counts as rejection (non-zero exit), an accepted corrupt document as violation."),
 "P15": ("differential property-based testing of every matrix constructor against one another and the generated model", SAMPLED),
 "P16": ("property-based testing against reference definitions with planted counterexamples", SAMPLED + "Compared at clear margins only where rounding decides."),
 "P17": ("exhaustive small cases plus property-based testing against reference enumeration", SAMPLED + "Small orders are enumerated completely."),
 "P18": ("end-to-end fuzzing of the built command line tool: generated documents and flags, output parsed and checked against oracles", SAMPLED + "The tool is built from /repo's own sources by the harness crate."),
 "P19": ("model-based (stateful) testing of Graph operation histories against a reference adjacency model", SAMPLED),
 "P20": ("property-based testing of the instance generators with parsed output and statistical sanity bounds far from chance", SAMPLED + "python_tsp is not installed here and is replaced by a stand-in for its one used function."),
 "P21": ("generated-input fuzzing of the raw-pointer and parallel code under AddressSanitizer, small cases also in Miri under generated schedules with data race detection", SAMPLED + "AddressSanitizer sees out-of-bounds and use-after-free accesses; data races are searched in small cases by Miri only."),
 "P23": ("differential property-based testing of the Python helpers: generated matrices, seeds and sizes, outputs parsed and checked step by step", SAMPLED + "python_tsp is not installed here and is replaced by a stand-in for its one used function."),
 "P24": ("stateful property-based testing: generated histories of calls on related instances, one after the other and by several threads at once, differential against a fresh process for each call; histories of runs of the tool in one directory",
         SAMPLED + "Interleavings of the concurrent histories are those the operating system produces."),
 "P22": ("metamorphic property-based testing: renumbering, scaling by powers of two, adding an offset to every distance", SAMPLED),
}
claimed = sys.argv[1].split(",") if len(sys.argv) > 1 else list(T)
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
assert set(props) == set(T), set(props) ^ set(T)
m = {
 "version": 1,
 "setup_cmd": "./run.sh --build",
 "checks": [{
   "property": p,
   "quick_cmd": f"./run.sh {p}",
   "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {p}",
   "technique": T[p][0],
   "level": "exploration",
   "level_note": T[p][1].strip(),
 } for p in props if p in claimed],
 "not_applicable": [{"property": p, "reason": "machinery not built yet"} for p in props if p not in claimed],
 "notes": "run.sh builds the harness crates against /repo's working tree; known_findings.txt lists repaired defects; DESIGN.md explains each check.",
}
print(json.dumps(m, indent=1))
