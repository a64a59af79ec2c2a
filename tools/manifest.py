#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from check.py's table and the notes below. Run after changing either."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check

INPUT = ("Every case inside the stated bounds was executed on the real crate (both the no_std/libm and the all-features build); "
         "nothing is claimed outside the enumerated grid. Trusts ")
N = {
 "C01": ("exhaustive bounded enumeration of (degree, node) states of the real constructor against a double-double reference model", INPUT + "the double-double Legendre recurrence oracle."),
 "C02": ("exhaustive bounded enumeration of (degree, node) states of the real constructor against a double-double reference model", INPUT + "the double-double Hermite recurrence oracle."),
 "C03": ("exhaustive bounded enumeration of (alpha, degree, node) states against a double-double reference model", INPUT + "the double-double Laguerre recurrence and Gamma oracle; alpha ranges over a finite grid of special, boundary, neighbouring and generic values."),
 "C04": ("exhaustive bounded enumeration of (alpha, beta, degree, node) states against a double-double reference model", INPUT + "the double-double Jacobi recurrence and Gamma oracle; (alpha, beta) ranges over a finite grid. Two recorded known findings are excluded by exact signature."),
 "C05": ("exhaustive bounded enumeration of (kind, degree, node) states against the closed forms in double-double", INPUT + "the double-double sine/cosine oracle."),
 "C06": ("exhaustive bounded enumeration of constructor calls with a structural invariant checked in every resulting state", INPUT + "nothing beyond the invariant itself."),
 "C07": ("explicit-state exploration of all environment-answer sequences (integrand return values, panics) against a reference model", "All answer sequences up to the stated length over the answer alphabet, all bounds pairs of the alphabet; the model sums in double-double. Larger degrees are covered with a bounded number of deviations from default answers."),
 "C08": ("explicit-state exploration of all answer and change_degree sequences against a textbook reference model", "All answer sequences and degree-change histories up to the stated bounds; the reference composite formula is recomputed in double-double."),
 "C09": ("stateless model checking: exhaustive depth-first enumeration of work-stealing schedules of the real par_integrate under a controlled rayon-core", "Every schedule within the preemption and steal budgets for small degrees, every placement of few steals for larger ones, the default schedule for many degrees and pool sizes; the real crate and the real rayon iterators run on a rayon-core stand-in that models join, injection and stealing. Atomic operations are explored sequentially consistently; schedule caps, if hit, are counted in the evidence."),
 "C10": ("stateless model checking: exhaustive depth-first enumeration of work-stealing schedules of the real par_new under a controlled rayon-core", "Every schedule within the preemption and steal budgets for small degrees on both sides of the table limit, the default schedule for all degrees of the grid and pool sizes 1..64. Trusts the rayon-core stand-in; the sequential constructor is the reference. Schedule caps, if hit, are counted in the evidence."),
 "C11": ("explicit-state breadth-first search over all iterator states with a window model, plus all short operation sequences", "Complete reachable state space [front, back) for degrees <= 12 with every operation; larger degrees to a state bound. The implementation is stepped in every state (conformance is the check itself)."),
 "C12": ("exhaustive enumeration of bit-pattern classes and of all operation sequences to a depth, against IEEE arithmetic as the model", "Every exponent and sign with boundary mantissas, all pairs of an alphabet, all operation sequences to the stated depth; not all 2^64 bit patterns. One recorded known finding (zerocopy) is excluded by exact signature."),
 "C13": ("exhaustive enumeration of all short strings and of bit-pattern classes against the standard parser and printer as the model", "All strings up to the stated length over the alphabet, all bit-pattern classes of C12; longer strings only from the enumerated families."),
 "C14": ("exhaustive single-fault enumeration over the stored forms (every truncation, byte, field and value substitution) with a recovery invariant", "All single faults of the enumerated kinds on the stored forms of the rule alphabet; two simultaneous faults and corrupted rkyv archives (which need unsafe access in the caller) are outside."),
 "C15": ("stateless model checking: exhaustive enumeration of operation histories and of thread interleavings (at integrand calls, operation boundaries and every atomic or lock operation of the crate) against fresh-process baselines", "All histories to the stated depth and all interleavings of teams of 2-3 threads within the preemption budget; sequential consistency only. Data races proper are excluded by the crate's forbid(unsafe_code)."),
 "C16": ("exhaustive bounded enumeration of (degree, parameters, neighbours) with equivalence to the general construction checked in every state", "Every case of the grid was executed on the real crate; parameters range over the special values, their floating-point neighbours and a finite set of others."),
 "C17": ("exhaustive enumeration of the feature configurations (every subset) with observational equivalence checked between all of them", "All 64 combinations are built with assertions and overflow checks, and the smallest and largest of every backend also as an optimised build without them; every buildable one runs the same observation program. Values may differ between math backends by rounding only; nothing outside the observation program is compared."),
 "C18": ("exhaustive bounded enumeration of (rule, degree, bounds, integrand) against algebraic-law oracles", "All combinations of the alphabets of rules, degrees, bounds and basis integrands; tolerances follow a rounding-error model."),
 "C19": ("exhaustive enumeration of rule pairs/triples, degrees and nesting structures against the product-rule model, and of work-stealing schedules of nested parallel integration", "All pairs and triples from the rule alphabet; call multiset and iterated sum are compared with the model; parallel nestings of small rules under every schedule within the budgets."),
 "C20": ("exhaustive enumeration of pairs of bounds over a covering alphabet of doubles, of answer kinds and of writer-failure points, with totality and IEEE propagation checked in every execution", "All ordered pairs of a 28-value alphabet (every kind of double) as bounds for every rule and degree of the grid, sequentially and on the real thread pool; formatting into a writer failing at every byte of short texts. Schedules of parallel integration are C09's subject."),
 "C21": ("exhaustive bounded enumeration of (rule, degree, bounds, integrand) against the two-sided textbook error formula", INPUT + "closed-form integrals and derivative ranges of the integrand families; allowances for rounding follow the eigensolver's backward error. One recorded known finding is excluded by exact signature."),
 "C22": ("exhaustive enumeration of all states of the threshold (one per gap between neighbouring samples) of every rule in the grid, against the separation theorem", INPUT + "closed forms, incomplete Gamma and Beta functions for the masses; allowances for rounding follow the eigensolver's backward error. One recorded known finding is excluded by exact signature."),
 "C23": ("exhaustive enumeration of operations, of ordered pairs of operations and of ways to take a rule apart, with the heap in use as the observed state (a counting global allocator)", "Every operation of the alphabet repeated, every ordered pair, walks of thousands of different arguments, peak sizes over a grid of degrees up to a million; pool operations are measured with the real thread pool within a slack of some KiB for its own queues. Memory obtained other than through the global allocator is not seen."),
}
NOTES = getattr(check, "NOTES", {})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": []}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
for i in ids:
    if i in check.CHECKS:
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --tier thorough",
                            "technique": N[i][0], "level": check.CHECKS[i][0], "level_note": N[i][1] or "see DESIGN.md"})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
