"""Property -> proof units (with the obligations that belong to the property), Lean files, notes."""
ALL_ = None
SAFE = r"^[\w<>]+::[\w<>:]+: |recursion"   # obligations any property of the function needs
def f(*pats): return "|".join((SAFE,) + pats)

CALLARG = r"calculator|search space's own|dimension kept"
F_ELL = "f64 as reals; cut preconditions: g'Pg > 0, offset >= 0 for a deep cut, second offset >= 0 in q mode, dimension >= 2, slab of non-zero width"
F_DRV = "oracle and search-space methods are functions of the object's state and arguments (deterministic, no shared state); an update answers success, no solution or no effect"
F_PROF = "f64 as reals; exp and ln mathematical; unit price, scale, limit and input prices positive, level >= 0"
PROPS = {
    "P01": dict(units=[(r"calc:.*", f("new ellipsoid keeps", "sigma", "delta > 0")),
                       (r"ell:.*", f(CALLARG, "centre moves", "new shape", "symmetric", "kappa stays", "verdict")),
                       (r"stable:.*", f(CALLARG, "centre moves", "factor", "kappa becomes", "verdict"))],
                lean=["Ellipsoid.lean"], assume=[F_ELL]),
    "P02": dict(units=[(r"calc:.*", f("verdict")),
                       (r"ell:.*", f(CALLARG, "verdict", "refused", "other settings")),
                       (r"stable:.*", f(CALLARG, "verdict", "refused", "other settings"))],
                lean=["Ellipsoid.lean"], assume=[F_ELL]),
    "P03": dict(units=[(r"calc:.*", f("sigma", "delta > 0", "volume")),
                       (r"ell:.*", f(CALLARG, "new shape", "symmetric", "kappa stays", "verdict")),
                       (r"stable:.*", f(CALLARG, "factor", "kappa becomes", "verdict")), (r"space:.*", ALL_)],
                lean=["Ellipsoid.lean"], assume=[F_ELL]),
    "P04": dict(units=[(r"ell:.*", ALL_), (r"stable:.*", ALL_), (r"space:.*", ALL_)], lean=["Ellipsoid.lean"], assume=[F_ELL]),
    "P05": dict(units=[(r"drive:(feas|options)", ALL_)], assume=[F_DRV]),
    "P06": dict(units=[(r"drive:(feas|keep)", ALL_), (r"calc:(bias|central):.*", f("new ellipsoid keeps", "sigma", "delta > 0", "verdict")),
                       (r"(ell|stable):(bias|central):.*", f(CALLARG, "centre moves", "new shape", "symmetric", "kappa", "verdict", "factor"))],
                lean=["Ellipsoid.lean"], assume=[F_ELL, F_DRV, "the point satisfies every cut with a neighbourhood of it (each cut leaves an allowed region with interior)"]),
    "P07": dict(units=[(r"drive:(optim|options)", ALL_)], assume=[F_DRV]),
    "P08": dict(units=[(r"drive:(optim_q|options)", ALL_)], assume=[F_DRV]),
    "P09": dict(units=[(r"drive:(bsearch|adaptor|options)", ALL_)], assume=[F_DRV, "bsearch: tolerance > 0, lower <= upper (asserted by the code)"]),
    "P10": dict(units=[(r"ldlt:.*", ALL_)], lean=["Ldlt.lean"], budget=200, assume=["f64 as reals", "the matrix handed over is symmetric (only its lower triangle is read)"]),
    "P11": dict(units=[(r"lmi:.*", ALL_), (r"ldlt:.*", ALL_)], lean=["Ldlt.lean", "Lmi.lean"], budget=200, assume=["f64 as reals", "all matrices are symmetric and of the size of B (of F_0 for the homogeneous oracle), one per variable"]),
    "P12": dict(units=[(r"lowpass:(feas|optim)", f("accept", "rotation", "modified", "invariant")), (r"lowpass:(new|case)", ALL_)],
                assume=["f64 as reals", "band layout: at least one pass-band sample, pass band before stop band, at least one stop-band sample; rotation indices as left by the constructor and kept by every query (proved invariant)", "pi and cos are the mathematical ones; 10^e and log10 by their sign and monotonicity facts"]),
    "P13": dict(units=[(r"lowpass:(feas|optim)", f("cut", "offset", "gradient", "level", "invariant", "modified", "rotation", "accepted only"))],
                assume=["f64 as reals", "band layout and rotation invariant as in P12", "spectrum samples are finite; ordered offsets assume lower limit <= upper limit and non-negative stop limit"]),
    "P23": dict(units=[(r"semi:.*", ALL_)], level="exploration", technique="contracts on the real source checked at fixed dimensions (bounded), symbolic entries",
                note="Bounded: every obligation is discharged for all matrices of dimension 1 to 3 only; the loop's moving block start is outside the loop-contract inference.",
                assume=["f64 as reals", "the matrix handed over is symmetric (only its lower triangle is read)", "bounded: dimensions 1 to 3"]),
    "P14": dict(units=[(r"profit:plain", ALL_)], lean=["Profit.lean"], assume=[F_PROF]),
    "P15": dict(units=[(r"profit:(robust|quant)", ALL_)], lean=["Profit.lean"], assume=[F_PROF, "uncertainties >= 0 and smaller than the unit price and the limit; round is round-to-nearest"]),
    "P16": dict(units=[(r"cg:.*", ALL_)], budget=200, assume=["f64 as reals", "the curvature p'Ap and the residual r'r that the method divides by are non-zero (A positive definite, not yet converged)"]),
    "P17": dict(units=[(r"power:.*", ALL_), (r"arr:(products|scalar|elementwise)", ALL_)], assume=["f64 as reals", "iterates are non-zero vectors (the code divides by their length)"]),
    "P18": dict(units=[(r"arr:.*", ALL_)], assume=["f64 as reals", "element-wise functions of the standard library (exp, ln, ...) are functions of their argument"]),
    "P19": dict(units=[(r"svm:.*", ALL_)], assume=["f64 as reals", "signed margins lie below the initial value of the minimum search"]),
    "P20": dict(units=[(r"maxcut:.*", ALL_)], assume=["f64 as reals"]),
    "P21": dict(units=[(r"quasicvx:.*", ALL_)], assume=["f64 as reals; exp is mathematical (positive, above its tangents)", "level >= 0"]),
    "P22": dict(units=[(r"agree:.*", ALL_)], assume=["f64 as reals; tau^2 > 0, dimension >= 2; parallel central compared for a slab of non-zero width"]),
}
