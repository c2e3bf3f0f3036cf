MODULES = {
    "C01": ["c_mv", "c_classes"], "C02": ["c_mv", "c_classes"], "C03": ["c_mv"],
    "C04": ["c_cvar", "c_classes"], "C05": ["c_cvar", "c_classes"], "C06": ["c_robust", "c_classes"], "C07": ["c_rp"], "C08": ["c_rp"],
    "C09": ["c_cons"], "C10": ["c_fail"], "C11": ["c_cost", "c_classes"], "C12": ["c_sel"], "C13": ["c_ens"], "C14": ["c_ens"], "C15": ["c_disc"], "C16": ["c_disc"],
    "C17": ["c_prob"],
    "C18": ["c_prob"],
    "C19": ["c_prob"],
    "C20": ["c_perf"],
    "C25": ["c_proj"],
    "C26": ["c_proj"],
    "C27": ["c_proj"],
    "C32": ["c_stress"],
    "C33": ["c_stress"],
    "C28": ["c_views"],
    "C29": ["c_views"],
    "C30": ["c_bayes"],
    "C31": ["c_bayes"],
    "C21": ["c_mom"],
    "C22": ["c_mom"],
    "C23": ["c_mom"],
    "C24": ["c_mom"],
    "C37": ["c_psd"],
    "C38": ["c_plots"],
    "C34": ["c_entry"],
    "C35": ["c_perm"],
    "C36": ["c_pure"],
    "C39": ["c_refuse"],
    "C40": ["c_units"],
    "C41": ["c_equiv"],
    "C42": ["c_defaults"],
    "C43": ["c_forms"],
}
ORACLE = {
    "C01": "feasibility against a literal reading of the constraints + search for a lower-variance feasible point with Frank-Wolfe gap certificate",
    "C02": "per-column optimality certificate, LP maximum return, monotonicity",
    "C03": "Frank-Wolfe certificate of the Sharpe ratio",
    "C04": "independent LP (HiGHS) optimum and exact discrete CVaR",
    "C05": "per-column independent LP optimum, exact CVaR recomputation, convexity relation",
    "C06": "Frank-Wolfe certificate of the worst-case mean; Lagrangian certificate under a cap",
    "C07": "risk contributions recomputed from the weights",
    "C08": "recomputed objective and search for a better feasible point; frontier vs single solves",
    "C09": "literal reading of the specification on an exact grid; metamorphic equality of the input forms",
    "C10": "requests made impossible by a drawn contradiction, margin or malformed value must raise",
    "C11": "objective with costs certified optimal (Frank-Wolfe, independent LP, lifted trade space); metamorphic limits",
    "C12": "brute-force selection over the columns; exports read back",
    "C13": "direct weighted mean; exact stacking optimum by support enumeration; convex-hull membership",
    "C14": "the same ensemble assembled by hand from the named parts; repeat assembly",
    "C15": "every figure recomputed from the holdings",
    "C16": "exhaustive enumeration of affordable whole-lot holdings",
    "C17": "closed forms of decay, kernel and normalisation; rejection of improper inputs",
    "C18": "formulas, bounds and metamorphic relations of the two counts",
    "C19": "quantile and tail-mean definitions, risk-measure axioms, recomputed frontier overlays",
    "C20": "reports recomputed scenario by scenario and path by path with the same seed",
    "C21": "correctly rounded weighted sums; metamorphic merging, splitting, affine maps",
    "C22": "published formulas written with loops, fixed-point and duality-gap certificates, equivariance",
    "C23": "published intensities, estimating equations, enumeration of block partitions, contamination bounds",
    "C24": "differential: factory against the individually called estimators",
    "C25": "closed forms, quadrature, mutual inversion, composition over horizons",
    "C26": "number-coded rows decoded from the output; frequency bounds at six standard errors",
    "C27": "reference model of driver routing and pricing formulas",
    "C28": "dual lower bound of the relative entropy (certified minimality), refusal of inconsistent views",
    "C29": "views re-evaluated on the posterior against a hidden witness distribution; exact CVaR",
    "C30": "information-form Gaussian update; certainty and absence limits; linear confidence relation",
    "C31": "natural-parameter conjugate update; batches against one pooled update",
    "C32": "every figure recomputed; divergence by definition; named stresses against stress_test",
    "C33": "project, reprice and report by hand with the same seeds",
    "C34": "differential between construction routes and forms; simulated log-normal reference",
    "C35": "metamorphic: permuted assets, labels against arrays, permuted scenarios, mixed label orders",
    "C36": "model of isolated calls: histories, repeats, deep copies and a fresh process",
    "C37": "eigenvalue oracle on matrices of drawn spectrum",
    "C38": "data read back from the drawn artists against the frontiers",
    "C39": "fault injection into one input or parameter: must raise or stay visibly non-finite",
    "C40": "metamorphic: every figure of the restated problem divided by the unit to its dimension",
    "C41": "metamorphic: the same problem with scenarios split, rows of constraints restated, or a barred asset added",
    "C42": "differential: a call with documented defaults stated against the call that leaves them out",
    "C43": "differential: the same numbers in another dtype, container or memory layout",
}
