#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the statements)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
P = []
def p(id, title, statement, over, text, why, files, mech, observe=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": list(observe), "hook_needed": None}})
CP, EC, EL, ES = "src/cutting_plane.rs", "src/ell_calc.rs", "src/ell.rs", "src/ell_stable.rs"

p("P01", "A successful cut never discards an allowed point",
  "After a successful deep, central, quantised or parallel cut (leaving an allowed region with interior) on either ellipsoid search space, every point of the old ellipsoid that satisfies the cut (both half-spaces of a parallel cut when the second one is in use) lies in the new ellipsoid.",
  ["inputs", "configurations"], "all dimensions n >= 2, all symmetric positive definite shapes, centres, non-zero gradients and offsets, all cut kinds, parallel cuts switched on or off",
  "The tests check two dimensions and a handful of cuts against stored numbers; containment is a statement about every point of every ellipsoid.",
  [EC, EL, ES], [("cut-parameter formulas (rho, sigma, delta)", EC), ("rank-one shape update", EL), ("factor update", ES)], ["SearchSpace::update_bias_cut", "SearchSpace::update_central_cut", "SearchSpace::update_q"])
p("P02", "The no-solution verdict is exact and a refused cut changes nothing",
  "A cut is answered 'no solution' only when no point of the current ellipsoid satisfies it, 'no effect' only by a quantised update, for a cut too shallow to shrink the ellipsoid, and 'success' otherwise; a deep or central cut that leaves points of the ellipsoid allowed is always a success. A cut that is not a success leaves the centre and the ellipsoid exactly as they were.",
  ["inputs", "configurations"], "all dimensions, shapes, gradients, offsets (touching, just inside, just outside), cut kinds and parallel-cut switch",
  "The verdict depends on comparisons of offset, slab width and ellipsoid width; tests hit each branch with one or two numbers and never compare the full state after a refusal.",
  [EC, EL, ES], [("verdict comparisons", EC), ("early return before any write", EL), ("early return before any write", ES)], ["CutStatus", "SearchSpace::xc"])
p("P03", "Every successful cut leaves a valid, strictly smaller ellipsoid",
  "After every successful cut that leaves an allowed region with interior, the ellipsoid is again a valid one (symmetric positive definite shape, positive scale, same dimension) and its volume is strictly smaller than before (equal only for a quantised cut exactly at the no-effect threshold). So a sequence of such cuts of any length never degenerates into an invalid state.",
  ["inputs", "histories"], "all dimensions n >= 2, all valid states and cuts, hence by induction all sequences of cuts",
  "Tests run a few dozen cuts from a sphere in low dimension; validity and volume decrease are needed at every reachable state.",
  [EC, EL, ES], [("0 <= sigma < 1, delta > 0 and delta^n (1 - sigma) < 1", EC), ("shape update", EL), ("factor update", ES)], ["SearchSpace::update_*"])
p("P04", "All ellipsoid representations describe the same ellipsoid",
  "The plain ellipsoid with or without deferred scaling and the factored (numerically stable) ellipsoid, started from the same ellipsoid and given the same cut, give the same verdict, the same width measure, the same new centre and the same new ellipsoid. Every constructor builds exactly the ellipsoid its arguments describe, for the dimension of its centre and with parallel cuts in use, and moving the centre changes nothing else.",
  ["inputs", "histories", "configurations"], "all dimensions, all valid states in each representation, all cuts, scaling option on or off",
  "The stable variant is compared with the plain one on at most a few cuts from a sphere, where the off-diagonal factor is zero; the representations only differ visibly afterwards.",
  [EL, ES, EC], [("scale factored out or folded in", EL), ("triangular solves and rank-one factor update", ES)], ["SearchSpace::xc", "SearchSpace::tsq"])
p("P05", "Feasibility search follows the oracle and reports honestly",
  "The feasibility search queries the oracle exactly at the current centre, applies exactly the cut the oracle returned as a deep cut, returns as solution only a point the oracle accepted in the final query, and otherwise stops at the first update that is not a success, when the width measure falls below the tolerance, or at the iteration limit; the reported iteration count is the number of completed iterations before the stopping one.",
  ["inputs", "histories"], "all oracles, all search spaces, all tolerances and iteration limits (including zero)",
  "Tests run one convergent problem; they do not observe what the driver does on a refused cut, an exhausted limit or a tolerance stop for arbitrary oracles.",
  [CP], [("cutting_plane_feas", CP)], ["cutting_plane_feas"])
p("P06", "The feasible set and the optimum are never lost",
  "If a point satisfies every cut the oracle issues with room to spare (a neighbourhood of it does) and lies in the initial search space, then at every moment of a feasibility search it lies in the current search space, and a search over an ellipsoid that ends without a solution while such a point exists ended because of the tolerance or the iteration limit, never because of a 'no solution' verdict.",
  ["inputs", "histories"], "all oracles with a common feasible point, all ellipsoids containing it, all run lengths",
  "An end-to-end soundness statement about arbitrarily long runs; tests check that a few runs find a solution.",
  [CP, EL, ES, EC], [("composition of driver and cut soundness", CP)], ["cutting_plane_feas", "cutting_plane_optim"])
p("P07", "Optimisation keeps the incumbent of the best level",
  "The optimisation search queries the oracle at the current centre with the caller's level, uses a central cut exactly when the oracle improved the level and a deep cut otherwise, and returns the centre of the last improving query (nothing if there was none), while the level left with the caller is the one the oracle last wrote. It stops exactly at the first update that is not a success, when the width measure falls below the tolerance, or at the iteration limit, and reports the matching iteration count.",
  ["inputs", "histories"], "all oracles, search spaces, initial levels, tolerances and limits",
  "Depends on the order of improving and non-improving queries and on the stop reason; tests have a handful of runs with fixed expected counts.",
  [CP], [("cutting_plane_optim", CP)], ["cutting_plane_optim"])
p("P08", "Quantised optimisation returns only evaluated discrete points",
  "The quantised optimisation search returns the discrete point of the last improving query (never the continuous centre), retries with an alternative exactly after an update that had no effect while the oracle still offers alternatives, and stops when an update says there is no solution, when no alternative is left, when the width measure falls below the tolerance, or at the iteration limit.",
  ["inputs", "histories"], "all oracles, all sequences of update verdicts, all limits",
  "The retry flag depends on the whole history of verdicts; tests run one profit problem.",
  [CP], [("cutting_plane_optim_q", CP)], ["cutting_plane_optim_q"])
p("P09", "Binary search brackets the threshold and stays consistent",
  "Binary search only ever moves the upper end to a value its oracle accepted and the lower end to a value it rejected, halves the interval each step, hands the narrowed interval back to the caller, and stops when half the width falls below the tolerance or at the limit; it reports success exactly when some value was accepted. The adaptor that answers each value by a feasibility search passes that value to the oracle, works on a copy of its search space, and moves its own centre only to a point found feasible.",
  ["inputs", "histories"], "all intervals, oracles (accept/reject sequences), tolerances and limits",
  "Tests check one monotone oracle; the interval left with the caller and the adaptor's state after failure are never compared.",
  [CP], [("bsearch", CP), ("BSearchAdaptor::assess_bs", CP)], ["bsearch", "BSearchAdaptor"])
p("P10", "Factorisation decides definiteness and certifies rejection",
  "The strict factorisation accepts exactly the symmetric positive definite matrices, whatever was factored before with the same manager; on rejection the witness vector v (its entries in the reported block, read as zero outside it) satisfies v'Av = -(returned value) <= 0 and the quadratic-form helper evaluates v'Mv for any symmetric M; on acceptance the square root R is upper triangular with R'R = A.",
  ["inputs", "histories"], "all dimensions, all symmetric matrices, all previous uses of the manager",
  "Tests use a few 3x3 matrices on fresh managers; the certificate is an identity over all matrices and all failing positions.",
  ["src/oracles/ldlt_mgr.rs"], [("LDL' recursion", "src/oracles/ldlt_mgr.rs"), ("back-substitution for the witness", "src/oracles/ldlt_mgr.rs")], ["LDLTMgr::factor", "LDLTMgr::factorize", "LDLTMgr::witness", "LDLTMgr::sym_quad", "LDLTMgr::sqrt"])
p("P11", "Matrix-inequality oracles are exact and cut soundly",
  "Each linear-matrix-inequality oracle accepts a point exactly when the matrix B - sum x_k F_k (or sum x_k F_k for the homogeneous oracle) is positive definite, and otherwise returns a cut with non-negative offset that every feasible point satisfies. The two affine oracles (lazy and eager assembly) give the same answers.",
  ["inputs", "histories"], "all numbers of variables, all matrix sizes, all symmetric coefficient matrices, all query sequences",
  "Tests solve one or two fixed LMI problems.",
  ["src/oracles/lmi_oracle.rs", "src/oracles/lmi0_oracle.rs", "src/oracles/lmi_old_oracle.rs", "src/oracles/ldlt_mgr.rs"], [("assembly of the matrix, witness, gradient", "src/oracles/lmi_oracle.rs")], ["assess_feas of the three oracles"])
p("P12", "The low-pass oracle accepts exactly the designs that meet the specification",
  "Whatever its rotation state after earlier queries, the low-pass filter oracle accepts a point only if every pass-band sample lies between the lower and upper limit, every stop-band sample between zero and the stop limit, every transition sample is non-negative and the leading coefficient is non-negative, and it accepts every such point. Construction samples the cosine spectrum 1, 2cos(w), 2cos(2w), ... on an even grid of [0, pi] with 15 samples per coefficient and places the band edges by the given fractions; the stock case has consistent limits (0 < lower < 1 < upper).",
  ["inputs", "histories"], "all points, all filter orders, all specifications, all rotation states reachable through earlier queries",
  "Acceptance must hold for every sample and every rotation state; tests run whole designs and check iteration counts.",
  ["src/oracles/lowpass_oracle.rs", "src/arr.rs"], [("round-robin scans of the three bands", "src/oracles/lowpass_oracle.rs")], ["LowpassOracle::assess_feas", "LowpassOracle::new", "create_lowpass_case"])
p("P13", "Low-pass cuts are sound and the level is the true peak",
  "Every cut from the low-pass oracle is violated or touched at the queried point (non-negative first offset not above the second), and is satisfied, in both half-spaces, by every design that meets the specification. When a design is accepted during optimisation, the returned level is the largest stop-band sample, it never exceeds the previous level, and the central parallel cut bounds that sample between zero and the new level.",
  ["inputs", "histories"], "all points, specifications and rotation states",
  "Sign and offset of each of the six cut forms are exercised only along the trajectories of two designs.",
  ["src/oracles/lowpass_oracle.rs"], [("cut construction", "src/oracles/lowpass_oracle.rs"), ("running maximum of the stop band", "src/oracles/lowpass_oracle.rs")], ["LowpassOracle::assess_feas", "LowpassOracle::assess_optim"])
p("P14", "Profit oracle cuts keep every better plan",
  "For every query the profit oracle either returns a cut with positive offset that the queried plan violates and every plan meeting the limit with at least the current profit satisfies, or raises the level to the exact profit p*A*x^a - price'x of the queried plan (never below the current level) with a central cut that every plan at least as good satisfies.",
  ["inputs", "histories"], "all positive parameters, elasticities, plans, levels >= 0 and rotation states",
  "Validity of the cut is a convexity statement over all pairs of plans; tests compare one optimum.",
  ["src/oracles/profit_oracle.rs"], [("constraint values, gradients, level update", "src/oracles/profit_oracle.rs")], ["ProfitOracle::assess_optim"])
p("P15", "Robust and quantised profit oracles evaluate the right problem",
  "The robust profit oracle answers exactly as the plain one with the unit price and limit lowered, the input prices raised, and each elasticity moved to its worst case for the sign of the queried component. The quantised profit oracle evaluates the rounded plan (whole units, at least one), returns that discrete plan with its cut re-based to the queried centre, and on a retry keeps the discrete plan of the preceding query.",
  ["inputs", "histories"], "all parameters, uncertainties, plans (both signs), levels and retry sequences",
  "Tests run one robust and one quantised instance to convergence.",
  ["src/oracles/profit_oracle.rs"], [("worst-case elasticities", "src/oracles/profit_oracle.rs"), ("rounding and offset re-basing", "src/oracles/profit_oracle.rs")], ["ProfitRbOracle::assess_optim", "ProfitOracleQ::assess_optim_q"])
p("P16", "Conjugate gradient returns only verified solutions",
  "When conjugate gradient reports success, the returned vector x satisfies ||b - Ax|| < tol, starting from the caller's guess (or zero), for any square matrix; a start that already solves the system is returned unchanged, and failure is reported only when the search direction degenerates or all the iterations allowed were carried out without meeting the tolerance.",
  ["inputs", "histories"], "all dimensions, matrices, right-hand sides, starts, tolerances and limits",
  "Success is claimed from a recursively updated residual; tests check a few small systems.",
  ["src/conjugate_gradient.rs", "src/arr.rs"], [("residual recursion r = b - Ax", "src/conjugate_gradient.rs")], ["conjugate_gradient"])
p("P17", "Power iteration returns the Rayleigh quotient of its vector",
  "Each power-iteration variant returns the Rayleigh quotient x'Ax / x'x of the vector it leaves with the caller; the variants that normalise leave a unit vector; and a run stops at the first iteration at which two successive iterates (or eigenvalue estimates) differ by at most the tolerance, reporting that iteration's index and otherwise the limit. Large iterates do not overflow: for a positive definite matrix with eigenvalues between 1 and 1e60 the result is finite however long the run.",
  ["inputs", "histories"], "all dimensions, matrices, starts, tolerances and limits",
  "Tests compare one 3x3 matrix's dominant eigenvalue.",
  ["src/power_iteration.rs", "src/arr.rs"], [("normalise, multiply, compare", "src/power_iteration.rs")], ["power_iteration", "power_iteration2", "power_iteration3", "power_iteration4"])
p("P18", "Array operations implement their linear algebra",
  "Every vector and matrix operation returns the mathematically specified entries for all shapes: element-wise arithmetic and functions, scaling, negation, dot product, matrix-vector product, outer product, symmetric rank-one update, row extraction, diagonal and identity matrices, evenly spaced and unit-step ranges; owned, borrowed and in-place forms agree, shapes are preserved, operands are not modified, mismatched sizes are refused, and two arrays compare equal exactly when shape and entries agree.",
  ["inputs"], "all shapes and contents",
  "Tests use 2- and 3-element arrays, where row/column index mistakes in non-square shapes do not show.",
  ["src/arr.rs"], [("Arr and its operators", "src/arr.rs")], ["Arr", "linspace", "arange"])
p("P19", "SVM oracle cuts with the most violated sample",
  "The support-vector oracle reports the smallest signed margin over all samples: if it is at least one the level becomes zero with a null cut; otherwise the level becomes that margin and the cut is the gradient of a sample attaining it with offset one minus the margin, so every classifier giving all samples margin at least one satisfies the cut.",
  ["inputs"], "all numbers of samples and features, data, labels and queried classifiers",
  "Tests use a few separable points.",
  ["src/oracles/svm_oracle.rs"], [("minimum-margin scan", "src/oracles/svm_oracle.rs")], ["SvmOracle::assess_optim"])
p("P20", "Max-cut oracle scores the rounded cut exactly",
  "The max-cut oracle rounds each coordinate to +1 (non-negative) or -1, scores the total weight of edges between the two sides, raises the level exactly when the score exceeds it and leaves it unchanged otherwise, and returns as gradient minus twice each vertex's crossing weight, with the negated score (improved) or the level (not improved) as offset.",
  ["inputs"], "all graph sizes, weight matrices, points and levels",
  "Tests use graphs with two to four vertices.",
  ["src/oracles/maxcut_oracle.rs"], [("pairwise sums", "src/oracles/maxcut_oracle.rs")], ["MaxcutOracle::assess_optim"])
p("P21", "Quasi-convex example oracle cuts keep every better point",
  "For any rotation state and level >= 0 the quasi-convex example oracle either returns a cut with positive offset, violated at the queried point and satisfied by every point meeting both constraints at the current level, or raises the level to the objective value of the queried point with a central cut that every point at least as good satisfies.",
  ["inputs", "histories"], "all points, levels and rotation states",
  "A convexity statement over all pairs of points; tests check one optimum.",
  ["src/quasicvx.rs"], [("constraint values and gradients", "src/quasicvx.rs")], ["quasicvx::MyOracle::assess_optim"])
p("P22", "The cut calculators agree wherever they describe the same cut",
  "A central cut equals the deep cut with zero offset; a parallel cut whose second half-space is absent, switched off or inactive equals the single cut; a parallel central cut equals the parallel deep cut with first offset zero; the quantised calculators equal the deep-cut ones for non-negative offsets; and the older parallel-cut formulas give the same result as the fast ones.",
  ["inputs", "configurations"], "all dimensions n >= 2, offsets and widths",
  "Tests compare stored numbers for single offsets; agreement is over all offsets including the branch boundaries.",
  [EC], [("separate formula paths for each cut kind", EC)], ["EllCalc"])
p("P23", "Semidefinite-tolerant factorisation rejects only with a certificate",
  "The semidefinite-tolerant factorisation rejects a symmetric matrix only with a witness v (its entries in the reported block, read as zero outside it) with v'Av = -(returned value) < 0, so it never rejects a positive semidefinite matrix, whatever was factored before with the same manager. It accepts a matrix none of whose pivots vanishes only if that matrix is positive definite.",
  ["inputs", "histories"], "all symmetric matrices, all previous uses of the manager",
  "Tests use three 2x2 and 3x3 matrices; the reported block depends on where the vanishing pivots fall.",
  ["src/oracles/ldlt_mgr.rs"], [("restart of the block after a vanishing pivot", "src/oracles/ldlt_mgr.rs"), ("back-substitution for the witness over the block", "src/oracles/ldlt_mgr.rs")], ["LDLTMgr::factor_with_allow_semidefinite", "LDLTMgr::witness"])
with open(OUT, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
if __name__ == "__main__": print(len(P), max(len(x["title"]) for x in P))
