#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl from the table below (one place to edit)."""
import json, os
P = "pyvallocation/"
U = "pyvallocation/utils/"
rows = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    rows.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

I = ["inputs"]; IC = ["inputs", "configurations"]

prop("C01", "Mean-variance portfolios are feasible and variance-optimal",
 """For every mean vector, positive-definite covariance, feasible linear constraint set and optional minimum-return target,
 the mean-variance portfolio satisfies every constraint and the target to solver tolerance, and no feasible portfolio has a
 lower variance. The return and volatility reported with it equal the values recomputed from its weights.""",
 IC, "all (mean, covariance, constraint specification, return target) with a non-empty feasible set",
 "Tests solve a handful of 2-4 asset examples with default constraints; optimality over a polytope is a claim about every feasible portfolio.",
 [P+"optimization.py", P+"portfolioapi.py", U+"constraints.py"],
 [("MeanVariance QP", P+"optimization.py:MeanVariance._solve_target"), ("min_variance_at_return", P+"portfolioapi.py:PortfolioWrapper.min_variance_at_return")],
 ["PortfolioWrapper.min_variance_at_return", "PortfolioWrapper.variance_frontier", "MeanVariance.efficient_portfolio"])

prop("C02", "Mean-variance frontier spans and traces the efficient set",
 """For every feasible problem the mean-variance frontier starts at the minimum-variance portfolio and ends at the maximum
 attainable expected return, its targets are evenly spaced in return, and every column is feasible and has the least variance
 among feasible portfolios with at least its return. Returns and risks along it are non-decreasing and agree with the weights.""",
 IC, "all feasible (mean, covariance, constraints, number of points)",
 "Tests look at shapes and monotonicity on one or two fixtures; endpoints and per-point optimality depend on the whole feasible set.",
 [P+"optimization.py", P+"portfolioapi.py"],
 [("frontier sweep", P+"optimization.py:_FrontierMixin._frontier"), ("max-return LP", P+"optimization.py:_BaseOptimization._max_expected_return"), ("variance_frontier", P+"portfolioapi.py:PortfolioWrapper.variance_frontier")],
 ["PortfolioWrapper.variance_frontier", "MeanVariance.efficient_frontier"])

prop("C03", "The maximum-Sharpe portfolio is feasible and Sharpe-optimal",
 """When some fully invested feasible portfolio has an expected return above the risk-free rate, the direct maximum-Sharpe
 solution is fully invested, satisfies the inequality constraints it was given, and no feasible fully invested portfolio has a
 higher Sharpe ratio; a ratio that is only approached by unlimited leverage is refused. Its reported return and volatility equal
 the values recomputed from its weights.""",
 IC, "all (mean, positive-definite covariance, inequality constraints with full investment, risk-free rate) with positive attainable excess return",
 "The tests check one three-asset long-only example; maximality of a ratio over a polytope cannot be sampled.",
 [P+"optimization.py"], [("homogenised QP", P+"optimization.py:MeanVariance.max_sharpe")], ["MeanVariance.max_sharpe"])

prop("C04", "Mean-CVaR portfolios are feasible and CVaR-optimal",
 """For every scenario matrix, probability vector, tail level, feasible constraint set and optional minimum-return target, the
 mean-CVaR portfolio satisfies the constraints and the target, and no feasible portfolio has a lower expected shortfall.
 The reported return and CVaR equal the values recomputed from the weights and scenarios, with losses positive and gains negative.""",
 IC, "all (scenarios, probabilities, alpha, constraints, target) with a non-empty bounded feasible set, including scenario sets whose tail is a gain",
 "Tests run one or two fixtures whose tails are always losses; the optimum is a statement over all feasible portfolios.",
 [P+"optimization.py", P+"portfolioapi.py", U+"functions.py"],
 [("Rockafellar-Uryasev LP", P+"optimization.py:MeanCVaR"), ("min_cvar_at_return", P+"portfolioapi.py:PortfolioWrapper.min_cvar_at_return")],
 ["PortfolioWrapper.min_cvar_at_return", "MeanCVaR.efficient_portfolio"])

prop("C05", "The CVaR frontier is efficient, ordered and correctly signed",
 """For every scenario problem the CVaR frontier runs from the minimum-CVaR portfolio to the maximum-return portfolio with
 non-decreasing returns and non-decreasing reported CVaR, every column is feasible and CVaR-optimal for its return, and the raw
 CVaR overlay equals the signed CVaR recomputed from each column. With convexity enforcement on, reported risk is a convex
 function of return and never differs from the raw CVaR by more than numerical noise.""",
 IC, "all (scenarios, probabilities, alpha, constraints, number of points, enforcement flag)",
 "One convexity test on one seed; ordering and sign depend on whether tail outcomes are losses or gains.",
 [P+"portfolioapi.py", P+"optimization.py", U+"functions.py"],
 [("cvar_frontier", P+"portfolioapi.py:PortfolioWrapper.cvar_frontier"), ("frontier sweep", P+"optimization.py:_FrontierMixin._frontier")],
 ["PortfolioWrapper.cvar_frontier"])

prop("C06", "Robust portfolios maximise the worst-case mean over the uncertainty ellipsoid",
 """For every mean vector, positive-definite uncertainty matrix, feasible constraint set and penalty, the robust portfolio is
 feasible and no feasible portfolio has a higher nominal return minus penalty times the uncertainty norm of its weights, and
 where a cap on the squared uncertainty norm is given the cap holds and optimality is among capped portfolios. The reported
 estimation risk is the uncertainty norm of the returned weights (its square for the capped variant) and the robust frontier is
 sorted by it with matching returns and penalties.""",
 IC, "all (mean, uncertainty matrix with arbitrary correlation, constraints, penalty, cap)",
 "Tests use diagonal or tiny matrices and assert shapes; correlation is what separates the right norm from a wrong factor.",
 [P+"optimization.py", P+"portfolioapi.py", P+"bayesian.py"],
 [("SOCP", P+"optimization.py:RobustOptimizer._solve_socp"), ("robust_lambda_frontier", P+"portfolioapi.py:PortfolioWrapper.robust_lambda_frontier"), ("solve_robust_gamma_portfolio", P+"portfolioapi.py:PortfolioWrapper.solve_robust_gamma_portfolio")],
 ["PortfolioWrapper.robust_lambda_frontier", "PortfolioWrapper.solve_robust_gamma_portfolio"])

prop("C07", "Risk parity equalises or budgets risk contributions",
 """For every positive-definite covariance, the pure risk parity portfolio (no penalty, no return target, only long-only full
 investment) has risk contributions equal across assets, or proportional to the requested positive budgets. Diagnostics
 (variance, contributions, percentages summing to 100, achieved and pure-parity returns) agree with the returned weights.""",
 IC, "all (covariance with arbitrary correlations and volatilities, budgets)",
 "The equal-contribution test uses one diagonal covariance of similar volatilities; correlated or heterogeneous ones are untested.",
 [P+"optimization.py", P+"portfolioapi.py"],
 [("relaxed risk parity SOCP", P+"optimization.py:RelaxedRiskParity.solve"), ("diagnostics", P+"portfolioapi.py:PortfolioWrapper.relaxed_risk_parity_portfolio_with_diagnostics")],
 ["PortfolioWrapper.relaxed_risk_parity_portfolio_with_diagnostics", "RelaxedRiskParity.solve"])

prop("C08", "Relaxed risk parity honours constraints, targets and its own objective",
 """For every regulator value, return target or target multiplier and feasible constraint set, the relaxed risk parity portfolio
 is long-only, fully invested, satisfies the constraints and reaches its reported effective target, which equals the request
 unless the request is unattainable and is then clipped and flagged. No feasible portfolio reaching that target has a smaller gap
 between regulated average risk and the risk-contribution floor, and frontier points equal the corresponding single solves.""",
 IC, "all (mean, covariance, constraints, regulator, multiplier or explicit target, budgets)",
 "Tests fix one regulator and two targets; clipping, flags and optimality vary with the whole configuration.",
 [P+"optimization.py", P+"portfolioapi.py"],
 [("target clipping", P+"optimization.py:RelaxedRiskParity.solve"), ("backtracking", P+"portfolioapi.py:PortfolioWrapper._solve_relaxed_rp"), ("relaxed_risk_parity_frontier", P+"portfolioapi.py:PortfolioWrapper.relaxed_risk_parity_frontier")],
 ["PortfolioWrapper.relaxed_risk_parity_frontier", "RelaxedRiskParity.solve"])

prop("C09", "Constraint specifications mean exactly what they say",
 """For every constraint specification (long-only, total weight, scalar, per-asset or partial bounds, relative bounds, group
 limits, extra rows) and every weight vector, the generated inequality and equality matrices accept the vector exactly when the
 specification does. Malformed specifications are rejected with an error, and dictionary and object forms agree.""",
 IC, "all (specification, weight vector) pairs, including open-ended bounds, overlapping groups and malformed entries",
 "Tests compare a few matrices literally; equivalence with the written specification is for every vector and every combination of options.",
 [U+"constraints.py"], [("build_G_h_A_b", U+"constraints.py:build_G_h_A_b"), ("Constraints", U+"constraints.py:Constraints")],
 ["Constraints.to_matrices", "Constraints.from_dict", "build_G_h_A_b"])

prop("C10", "Infeasible portfolio requests fail with an error, never with weights",
 """When no portfolio satisfies the requested constraints, return target, risk limit or uncertainty cap, optimisers and frontier
 selectors raise an error instead of returning weights. Negative penalties or multipliers, non-finite targets, unknown options,
 unknown risk labels, wrong-length cost or budget vectors and non-finite or non-positive market data are rejected likewise.""",
 IC, "all requests made infeasible or malformed by construction",
 "tests/test_error_paths.py enumerates single examples; the quantifier is every infeasible or malformed request.",
 [P+"portfolioapi.py", P+"optimization.py", U+"constraints.py"],
 [("solver status check", P+"optimization.py:_BaseOptimization._assert_optimal"), ("AssetsDistribution validation", P+"portfolioapi.py:AssetsDistribution.__post_init__")],
 ["PortfolioWrapper.*", "PortfolioFrontier.*", "AssetsDistribution"])

prop("C11", "Trading costs enter the objective exactly as specified",
 """With quadratic costs around current holdings the mean-variance portfolio minimises variance plus the weighted squared trades,
 and with proportional costs the CVaR and robust portfolios minimise their risk objective plus cost times absolute trades. Zero
 costs reproduce the cost-free optimum, costs supplied at construction or per call are equivalent, and prohibitive costs leave
 feasible holdings unchanged.""",
 IC, "all (problem, current holdings, non-negative cost vectors)",
 "Tests check that costs run and reduce turnover on one fixture; the exact trade-off is never compared with an optimum.",
 [P+"optimization.py", P+"portfolioapi.py"],
 [("quadratic turnover", P+"optimization.py:_quadratic_turnover"), ("linear turnover", P+"optimization.py:_linear_turnover_blocks"), ("cost resolution", P+"portfolioapi.py:PortfolioWrapper._resolve_constraints")],
 ["PortfolioWrapper.min_variance_at_return", "PortfolioWrapper.min_cvar_at_return", "PortfolioWrapper.robust_lambda_frontier"])

prop("C12", "Frontier selectors return the best column for the asked criterion",
 """For every frontier, each selector (minimum risk, maximum return, tangency, return-maximal under a risk limit, risk-minimal
 over a return floor, nearest risk, risk percentile) returns a column of the frontier that is best for its criterion under the
 requested risk measure, together with that column's own return and risk. Table and sample exports contain exactly the selected
 columns under the right labels.""",
 I, "all frontiers (weights, returns, risks, alternate risks, labels, ties) and all selector arguments",
 "Tests query two or three hand-made frontiers; every selector must be right for every ordering, tie pattern and risk label.",
 [P+"portfolioapi.py"], [("selectors", P+"portfolioapi.py:PortfolioFrontier"), ("exports", P+"portfolioapi.py:PortfolioFrontier.to_frame")],
 ["PortfolioFrontier.min_risk/max_return/tangency/at_risk/at_return/closest_risk/at_percentile", "PortfolioFrontier.to_frame", "PortfolioFrontier.to_samples"])

prop("C13", "Averaging and stacking blend portfolios inside their convex hull",
 """Averaging returns the normalised weighted mean of the sample portfolios with weights matched to samples by label, and stacking
 returns a convex combination of the samples that attains the minimum of the cross-validated squared residual criterion for the
 requested number of folds. Blends of portfolios with the same budget keep that budget, and frontier-level helpers blend exactly
 one chosen (by default the minimum-risk) column per frontier.""",
 IC, "all sample panels, weights (labelled or not), fold counts and frontier collections",
 "Tests use two- or three-column panels; optimality of the stacking programme and label matching are for all panels.",
 [P+"ensembles.py", U+"weights.py"],
 [("average_exposures", P+"ensembles.py:average_exposures"), ("exposure_stacking", P+"ensembles.py:exposure_stacking"), ("sample collection", P+"ensembles.py:_collect_samples")],
 ["average_exposures", "exposure_stacking", "average_frontiers", "exposure_stack_frontiers", "stack_portfolios", "risk_percentile_selections"])

prop("C14", "Ensemble specifications assemble faithfully and repeatably",
 """Assembling an ensemble gives, for every specification, exactly the frontier and selected portfolio obtained by calling the
 underlying optimiser and selector by hand with the same inputs, and the blended portfolios equal blending those selections by
 hand. Assembling the same specifications again gives the same result.""",
 ["inputs", "configurations", "histories"], "all lists of specifications (data, estimators, optimisers, constraints, selectors) and repeated assemblies of them",
 "Tests assemble each spec once and check keys and sums; faithfulness per selector and reuse of specs are not exercised.",
 [P+"ensembles.py", P+"portfolioapi.py"],
 [("make_portfolio_spec", P+"ensembles.py:make_portfolio_spec"), ("selectors", P+"ensembles.py:_build_selector"), ("assemble", P+"ensembles.py:assemble_portfolio_ensemble")],
 ["make_portfolio_spec", "assemble_portfolio_ensemble", "PortfolioWrapper.make_ensemble_spec"])

prop("C15", "Discrete allocations conserve money and respect lots",
 """For every weight vector, price vector, budget and lot sizes, a discrete allocation holds whole lots only, never overspends the
 budget, reports leftover cash equal to the budget minus the value held, and reports achieved weights and tracking error
 recomputed from the holdings; long-only targets never produce short holdings. Assets match by label in any order, and invalid
 prices, budgets, lots or unknown assets are rejected.""",
 IC, "all (weights incl. shorts, prices, budget, lot sizes, method)",
 "Tests allocate a few round-number portfolios; conservation and integrality must hold for every price and budget.",
 [P+"discrete_allocation.py", P+"portfolioapi.py"],
 [("greedy", P+"discrete_allocation.py:allocate_greedy"), ("result builder", P+"discrete_allocation.py:_build_result"), ("as_discrete_allocation", P+"portfolioapi.py:PortfolioFrontier.as_discrete_allocation")],
 ["discretize_weights", "PortfolioFrontier.as_discrete_allocation"])

prop("C16", "Integer-programme allocations minimise deviation plus cash penalty",
 """For every small allocation problem, the integer-programming method returns holdings whose total absolute deviation from the
 target values plus penalised leftover cash is no worse than any other affordable whole-lot holding, honouring an optional cash
 ceiling. The greedy method never holds less of an asset than the whole lots its target value pays for, except where the budget
 forces it.""",
 IC, "all small (weights, prices, budget, lots, cash penalty, cash ceiling) problems, compared with exhaustive enumeration",
 "Tests assert one allocation; optimality is against every other integer allocation.",
 [P+"discrete_allocation.py"], [("allocate_mip", P+"discrete_allocation.py:allocate_mip"), ("allocate_greedy", P+"discrete_allocation.py:allocate_greedy")],
 ["discretize_weights"])

prop("C17", "Scenario probabilities are proper, ordered and shaped as documented",
 """Every generator and normaliser returns a finite non-negative vector of the right length summing to one: uniform is constant,
 exponential decay gives the most recent scenario the most weight and halves it every half-life, the Gaussian kernel weights depend
 only and decreasingly on distance to the target, and normalisation is proportional and leaves proper vectors unchanged.
 Improper inputs (negative, non-finite, all-zero, wrong length, non-positive scale) are rejected.""",
 I, "all lengths, half-lives, kernels, targets and raw vectors over many orders of magnitude",
 "Tests check sums on a couple of vectors; half-life, monotonicity and overflow behaviour are for all magnitudes.",
 [P+"probabilities.py"], [("generators", P+"probabilities.py"), ("resolve_probabilities", P+"probabilities.py:resolve_probabilities")],
 ["generate_*_probabilities", "normalize_probability_vector", "resolve_probabilities", "silverman_bandwidth"])

prop("C18", "Effective scenario counts are bounded and mean what they say",
 """Both effective-scenario measures lie between one and the number of non-zero scenarios, attain those bounds only for degenerate
 and uniform probabilities, ignore order and zero-probability scenarios, and equal the exponential of entropy and the inverse
 sum of squared probabilities; the former is never below the latter. Flattening the probabilities never lowers them.""",
 I, "all probability vectors", "Tests check the uniform and degenerate vectors only.",
 [P+"probabilities.py"], [("entropy count", P+"probabilities.py:compute_effective_number_scenarios"), ("hhi count", P+"probabilities.py:compute_effective_number_scenarios_hhi")],
 ["compute_effective_number_scenarios", "compute_effective_number_scenarios_hhi"])

prop("C19", "Portfolio risk measures agree with their definitions",
 """Variance, volatility, value-at-risk and expected shortfall of any portfolio over any weighted scenario set equal their
 textbook definitions (losses positive), for one or many portfolios and labelled or unlabelled inputs, with and without demeaning.
 They are invariant to scenario order and to splitting a scenario's probability, scale with positive leverage, shift with cash,
 and expected shortfall is subadditive, at least value-at-risk and non-decreasing in confidence. The extra risks attached to a
 frontier equal the measure recomputed from each of its portfolios under the scenario probabilities.""",
 I, "all scenario matrices, probabilities (incl. zeros), confidences and portfolios",
 "Tests compare a few numbers; definitions with ties, atoms at the quantile and non-uniform weights need every input.",
 [U+"functions.py", P+"portfolioapi.py"], [("cvar", U+"functions.py:portfolio_cvar"), ("var", U+"functions.py:portfolio_var"), ("variance", U+"functions.py:portfolio_variance")],
 ["portfolio_variance", "portfolio_volatility", "portfolio_var", "portfolio_cvar"])

prop("C20", "Performance and drawdown reports agree with recomputation",
 """Scenario profit-and-loss, the performance report (mean, deviation, value-at-risk, expected shortfall, effective scenarios), the
 multi-horizon report and the drawdown summary equal recomputation from scenarios, probabilities, weights and seed. Labelled
 weights are matched to scenario columns by label whatever their order, and weights that lack an asset or hold one the scenarios
 do not have are refused instead of silently turned into missing or partial results.""",
 IC, "all weights (arrays, series, mappings, frames), scenarios, probabilities, horizons, seeds and confidence levels",
 "Tests use one ordered portfolio and check keys; label order and per-horizon reproducibility vary with inputs.",
 [U+"performance.py", U+"projection.py"], [("scenario_pnl", U+"performance.py:scenario_pnl"), ("performance_report", U+"performance.py:performance_report"), ("horizon_report", U+"performance.py:horizon_report"), ("drawdown_quantile", U+"performance.py:drawdown_quantile")],
 ["scenario_pnl", "performance_report", "horizon_report", "drawdown_quantile"])

prop("C21", "Sample moments equal the probability-weighted definitions",
 """The sample mean and covariance of any scenario set under any probabilities equal the weighted definitions, are symmetric and
 positive semi-definite, keep asset labels, ignore scenario order and zero-probability scenarios, and follow affine
 transformations and reordering of assets. A distribution built from scenarios reports exactly these moments and normalised
 probabilities.""",
 I, "all scenario matrices (arrays or frames) and probability vectors (arrays or series)",
 "Tests compare with NumPy on one uniform sample.",
 [P+"moments.py", P+"portfolioapi.py"], [("estimate_sample_moments", P+"moments.py:estimate_sample_moments"), ("AssetsDistribution", P+"portfolioapi.py:AssetsDistribution")],
 ["estimate_sample_moments", "AssetsDistribution"])

prop("C22", "Covariance estimators are valid, equivariant and match their formulas",
 """Every covariance estimator (Ledoit-Wolf, OAS, nonlinear shrinkage, factor, Tyler, exponentially weighted, graphical lasso)
 returns a finite symmetric positive semi-definite matrix that keeps asset labels, follows reordering of assets and common
 rescaling of returns, and agrees with its published formula or optimality condition. Linear-shrinkage results are a
 convex combination of the sample covariance and the target.""",
 IC, "all return samples, estimator choices and tuning parameters",
 "tests/test_moments_shrinkage.py checks shapes and eigenvalues on one sample per estimator.",
 [P+"moments.py"], [("estimators", P+"moments.py")],
 ["shrink_covariance_*", "factor_covariance_poet", "robust_covariance_tyler", "covariance_ewma", "sparse_precision_glasso"])

prop("C23", "Mean estimators shrink, resist outliers and match their formulas",
 """The Bayes-Stein (Jorion) and James-Stein means lie on the segment between the sample mean and their stated target with the published
 intensity, the Huber mean solves its estimating equation, and the median-of-means is the column-wise median of equal
 block averages. All keep labels, follow reordering of assets and rescaling of returns, and the robust ones stay bounded when a
 minority of observations is corrupted arbitrarily.""",
 IC, "all samples, targets and tuning constants", "Tests compare a couple of numbers on one Gaussian sample.",
 [P+"moments.py"], [("mean estimators", P+"moments.py")],
 ["shrink_mean_jorion", "shrink_mean_james_stein", "robust_mean_huber", "robust_mean_median_of_means"])

prop("C24", "The estimator factory returns what the named estimators return",
 """For every supported mean and covariance estimator name and options, the moment factory returns exactly the moments the
 individually called estimators produce on the same data and probabilities, with labels preserved; unknown names are rejected.""",
 IC, "all pairs of estimator names, options, probabilities and data containers",
 "Tests call the factory for a few names and check shapes.",
 [P+"moments.py"], [("estimate_moments", P+"moments.py:estimate_moments")], ["estimate_moments"])

prop("C25", "Return conversions and horizon scaling are exact inverses and consistent",
 """Converting scenarios between compounded and simple returns, and moments between log-normal and simple space, are mutually
 inverse and match the closed-form log-normal moments; horizon projection scales mean and covariance linearly and composes over
 successive horizons. Labels survive and positive semi-definite inputs stay so.""",
 I, "all finite means, positive semi-definite covariances, scenarios above total loss and horizons",
 "Two tests check one vector each.",
 [U+"projection.py"], [("conversions", U+"projection.py")],
 ["log2simple", "simple2log", "project_mean_covariance", "convert_scenarios_*"])

prop("C26", "Scenario projection resamples whole observations and is reproducible",
 """Every projected scenario or simulated path step is built from complete historical rows with positive probability (never mixing
 assets from different rows), horizon scenarios are sums of exactly that many draws followed by repricing, draw frequencies follow
 the probabilities, and shape and labels are preserved. Equal seeds give equal output, and invalid horizons, counts or
 probabilities are rejected.""",
 IC, "all histories, horizons, probabilities, simulation counts, seeds and repricing functions",
 "Tests check shape and one seed; row integrity and support are for every draw.",
 [U+"projection.py", P+"portfolioapi.py"], [("project_scenarios", U+"projection.py:project_scenarios"), ("simulate_paths", U+"projection.py:simulate_paths"), ("from_invariants", P+"portfolioapi.py:PortfolioWrapper.from_invariants")],
 ["project_scenarios", "simulate_paths", "PortfolioWrapper.from_invariants"])

prop("C27", "Repricing maps risk drivers to the right instrument payoffs",
 """Exponential and Taylor repricing equal their formulas, a generic pricing function gives the price change from the current level, and
 composed repricers feed each instrument exactly its named driver or drivers, in instrument order, whatever the column order of
 the drivers. Unknown drivers are rejected.""",
 IC, "all driver scenarios, instrument maps (own-name, single-driver, multi-driver) and driver orderings",
 "Tests compose two instruments once.",
 [U+"projection.py"], [("reprice", U+"projection.py"), ("compose_repricers", U+"projection.py:compose_repricers")],
 ["reprice_exp", "reprice_taylor", "make_repricing_fn", "compose_repricers"])

prop("C28", "Entropy pooling satisfies the views at minimum relative entropy",
 """For every prior and every consistent set of linear equality and inequality views, the posterior is a probability vector that
 satisfies the views and has the smallest relative entropy to the prior among all probability vectors that do (for a CVaR view,
over the lengths of its tail too, up to local optima of that length); views the prior
 already satisfies leave it unchanged, and views no probability vector can satisfy are refused rather than missed silently. The result follows reordering of scenarios and does not depend on the optimiser choice.""",
 IC, "all priors and strictly feasible linear view systems, both solvers",
 "Tests check one mean view; minimality is over all probability vectors.",
 [P+"views.py"], [("dual solve", P+"views.py:entropy_pooling")], ["entropy_pooling"])

prop("C29", "Flexible views hold in the posterior they produce",
 """For every consistent set of views (means, relative means, volatilities, correlations, skewness, quantiles, CVaR, rankings;
 equality, one-sided or range), the posterior probabilities form a distribution under which each mean, ranking, quantile and CVaR
 view holds, and each higher-moment view holds around the means and variances set by the views before it; a view that cannot
 be met is refused, never silently missed. Posterior moments equal the moments of
 the scenarios under the posterior probabilities with labels preserved, and no views return the prior unchanged.""",
 IC, "all priors (scenarios with probabilities, or moments) and attainable views",
 "Tests check single views on one Gaussian prior; combinations, inequality directions and label lookup are open-ended.",
 [P+"views.py"], [("FlexibleViewsProcessor", P+"views.py:FlexibleViewsProcessor")], ["FlexibleViewsProcessor.get_posterior", "FlexibleViewsProcessor.get_posterior_probabilities"])

prop("C30", "Black-Litterman posteriors match the Bayesian closed form",
 """For every prior, pick structure (absolute and relative views), scale and view uncertainty (vector, matrix, proportional or
 confidence-implied), posterior mean and covariance equal the closed-form Gaussian update; reverse-optimised priors equal risk
 aversion times covariance times market weights. No views return the prior, near-certain views are met exactly, and labels are
 respected in any order.""",
 IC, "all (prior covariance, prior mean source, views, tau, omega or confidences)",
 "Tests check one view on two assets.",
 [P+"views.py", P+"moments.py"], [("BlackLittermanProcessor", P+"views.py:BlackLittermanProcessor"), ("posterior_moments_black_litterman", P+"moments.py:posterior_moments_black_litterman")],
 ["BlackLittermanProcessor", "posterior_moments_black_litterman"])

prop("C31", "Normal-inverse-Wishart updates are exact and order-independent",
 """For every prior and sample summary the posterior hyper-parameters equal the conjugate closed form, and updating with two
 batches in either order equals one update with the pooled sample; certainty-equivalent moments, credibility radii and the robust
 posterior built from them equal their formulas with labels kept. Horizon scaling multiplies means linearly and
 mean-uncertainty quadratically.""",
 ["inputs", "histories"], "all priors, samples, splits into batches, credibility levels and horizons",
 "Tests check one update; batch order is a statement over histories of updates.",
 [P+"bayesian.py", P+"moments.py"], [("NIWPosterior", P+"bayesian.py:NIWPosterior"), ("RobustBayesPosterior", P+"bayesian.py:RobustBayesPosterior"), ("posterior_moments_niw", P+"moments.py:posterior_moments_niw")],
 ["NIWPosterior", "RobustBayesPosterior.from_niw", "posterior_moments_niw", "posterior_moments_niw_with_uncertainty"])

prop("C32", "Stress tests report exactly what nominal and stressed inputs imply",
 """For any portfolios, scenarios, stressed probabilities and scenario transformation, every nominal and stressed figure equals
 the performance report recomputed under the respective probabilities and scenarios, and the divergence column is the non-negative
 relative entropy (zero only without a probability change). Decay, kernel and view-based stresses equal the plain stress
 test run with the corresponding probabilities, and portfolios and scenarios match by label.""",
 IC, "all portfolios, scenarios, probabilities, transformations, decay, kernel and view parameters",
 "Tests check one portfolio and the presence of columns.",
 [P+"stress.py", U+"performance.py"], [("stress_test", P+"stress.py:stress_test"), ("stress variants", P+"stress.py")],
 ["stress_test", "exp_decay_stress", "kernel_focus_stress", "entropy_pooling_stress", "linear_map"])

prop("C33", "Invariant stress reports match projecting and repricing by hand",
 """Stressing risk drivers gives nominal and stressed figures equal to projecting, repricing and reporting by hand with the same
 seeds under the prior and the view-implied probabilities. Portfolio weights given as arrays, labelled series or mappings refer to
 instruments by label in every mode.""",
 IC, "all invariants, horizons, repricers, views, seeds and weight containers",
 "One test runs it with an ordered array.",
 [P+"stress.py"], [("stress_invariants", P+"stress.py:stress_invariants")], ["stress_invariants"])

prop("C34", "Every entry point builds the same portfolio problem",
 """Building from prices equals building from their simple returns, log-return inputs equal their converted simple-return inputs,
 invariants equal projected and repriced scenarios, and scenario, moment and robust-posterior entry points expose exactly the
 moments, probabilities, labels and uncertainty they were given. Constraint shortcuts, constraint objects and dictionaries, set
 at construction or per call, yield the same portfolios.""",
 IC, "all data containers, entry points, constraint forms and horizons",
 "Tests run each factory once and check types.",
 [P+"portfolioapi.py"], [("factories", P+"portfolioapi.py:PortfolioWrapper.from_*"), ("constraint resolution", P+"portfolioapi.py:PortfolioWrapper._resolve_constraints")],
 ["PortfolioWrapper.from_prices/from_moments/from_scenarios/from_invariants/from_robust_posterior"])

prop("C35", "Results do not depend on asset order, and labels follow their assets",
 """Reordering the assets of any input reorders portfolios, posterior moments, ensembles and allocations the same way, and
 labelled inputs give labelled outputs with the values the unlabelled computation gives. Labelled inputs listing the same assets
 in different orders are matched by label or refused, and a labelled mean, covariance, panel, cost or weight vector naming an asset
 the other inputs lack is refused. Reordering scenarios together with their probabilities changes nothing.""",
 IC, "all permutations of assets and scenarios over all optimisers, views, ensembles, allocations and reports",
 "No test permutes inputs; equivariance is over every permutation.",
 [P+"portfolioapi.py", P+"views.py", P+"ensembles.py", P+"discrete_allocation.py", P+"moments.py", U+"weights.py", U+"data_helpers.py"],
 [("label handling", U+"data_helpers.py"), ("sample wrapping", U+"weights.py")], ["public API"])

prop("C36", "Calls are pure: inputs stay untouched and repeats agree",
 """No public function modifies the arrays, frames, series, dictionaries or solver settings it is given or that exist globally,
 repeating a call with the same arguments and seed gives the same result, and calls in any order do not influence one another.""",
 ["inputs", "histories"], "all interleaved sequences of public calls sharing input objects",
 "Tests call each function once on fresh inputs.",
 [P+"views.py", P+"ensembles.py", P+"portfolioapi.py", P+"moments.py", P+"stress.py", U+"projection.py"],
 [("solver option guard", P+"ensembles.py:_temporary_solver_options"), ("input conversion", U+"data_helpers.py")], ["public API"])

prop("C37", "PSD repair returns the input when valid and a valid matrix otherwise",
 """For every symmetric matrix, the positive-semi-definite check agrees with the eigenvalues, and the repair returns a symmetric
 positive semi-definite matrix that equals the input when it already qualified and otherwise differs by no more than its negative
 spectrum requires. Non-square, non-finite or otherwise invalid matrices are rejected where documented. The checks of weights
 (sum of one, non-negative) answer by their absolute tolerance.""",
 I, "all symmetric matrices", "Tests check two matrices.",
 [U+"validation.py"], [("ensure_psd_matrix", U+"validation.py:ensure_psd_matrix"), ("is_psd", U+"validation.py:is_psd")], ["is_psd", "ensure_psd_matrix"])

prop("C38", "Plots show the data of the frontiers they are given",
 """Frontier, weight, parameter-path and report plots draw exactly the risks, returns and weights of the frontiers passed in (in
 the requested risk measure and scale), mark the requested highlight portfolios at their coordinates, and leave the frontiers
 unchanged.""",
 IC, "all frontiers, labels, risk labels and plot options", "Tests check that axes are returned.",
 [P+"plotting.py"], [("plotting", P+"plotting.py")], ["plot_frontiers", "plot_frontiers_grid", "plot_weights", "plot_robust_path", "plot_param_impact", "plot_frontier_report"])

prop("C39", "Malformed data and out-of-domain parameters are refused",
 """For every public entry point, an input panel, moment, probability or price damaged by a missing or infinite value, a wrong
 length, a non-square shape or improper probabilities, and a parameter outside its documented domain, raises an
 error or leaves visibly non-finite numbers in the output. A damaged input never yields an answer that looks entirely valid.""",
 IC, "all public entry points, all positions and kinds of damage, all out-of-domain parameter values",
 "Tests try a few bad arguments on a few functions; which argument of which entry point is damaged, where and how is open-ended.",
 [P+"portfolioapi.py", P+"optimization.py", P+"moments.py", P+"views.py", P+"bayesian.py", P+"probabilities.py", P+"stress.py", P+"ensembles.py", P+"discrete_allocation.py", U+"functions.py", U+"projection.py", U+"performance.py", U+"validation.py"],
 [("input validation", P+"portfolioapi.py:AssetsDistribution.__post_init__"), ("probabilities", P+"probabilities.py:resolve_probabilities")], ["public API"])

prop("C40", "Answers do not depend on the unit of returns or of money",
 """Quoting every return, mean, target, rate, cost and view in another unit (annual, daily, basis points, percent, money), with
 covariances in its square, restates every figure to its dimension and changes nothing else: estimators, Bayesian
 and view posteriors, risk measures, reports and linear projections scale with the unit; optimisers, frontiers, selectors and
 ensembles choose the same portfolios and succeed or fail alike; posterior probabilities are unchanged. Restating
 prices and the budget in another currency leaves the shares bought unchanged.""",
 I, "all data, operations, options and units of return or currency",
 "Tests use one scale of data; absolute solver tolerances, floors and jitters only matter at other scales.",
 [P+"optimization.py", P+"portfolioapi.py", P+"moments.py", P+"views.py", P+"bayesian.py", P+"ensembles.py", P+"stress.py", P+"discrete_allocation.py", P+"probabilities.py", U+"functions.py", U+"projection.py"],
 [("solver unit", P+"optimization.py:_unit"), ("frontiers", P+"portfolioapi.py:PortfolioWrapper"), ("estimators", P+"moments.py")], ["public API"])

prop("C41", "Equivalent descriptions of the same problem give the same answer",
 """Splitting a scenario into repeats that share its probability, adding impossible scenarios and reordering rows leave moments,
 risk measures, reports, CVaR optima and frontiers unchanged and the posterior mass of each distinct scenario unchanged.
 Writing the same set of admissible portfolios with repeated, implied, rescaled or reordered rows instead of bounds and groups,
 or adding an asset that the constraints bar from being held, leaves every optimiser's portfolio of the other assets, its
 figures and its success or failure unchanged, and the barred asset is not held.""",
 I, "all scenario sets with probabilities, constraint sets, optimisers and positions of a barred asset",
 "Tests use one description of each problem; whether a repeated scenario or a redundant row changes an answer needs pairs of descriptions.",
 [P+"optimization.py", P+"portfolioapi.py", P+"moments.py", P+"views.py", P+"stress.py", P+"ensembles.py", U+"functions.py", U+"constraints.py", U+"performance.py"],
 [("risk measures", U+"functions.py:portfolio_cvar"), ("constraint rows", U+"constraints.py:Constraints"), ("CVaR programme", P+"optimization.py:MeanCVaR")], ["public API"])

prop("C42", "Omitting an argument means what its documentation says",
 """Every optional argument of a public function, estimator, optimiser, factory or report has the default its documentation and
 signature state: stating any of those values explicitly gives the result of leaving it out, on every input. This covers tail
 levels, frontier sizes and ranges, regularisation, half-lives and spans, horizons and numbers of simulations, estimator and
 allocation methods, ensemble options, tolerances and the long-only fully invested constraint set.""",
 I, "all public functions with optional arguments, random inputs and subsets of the stated arguments",
 "A test that omits an argument checks one result, usually its shape; a changed default passes it.",
 [P+"portfolioapi.py", P+"optimization.py", P+"moments.py", P+"bayesian.py", P+"views.py", P+"probabilities.py", P+"stress.py", P+"ensembles.py", P+"discrete_allocation.py", U+"functions.py", U+"constraints.py", U+"performance.py", U+"projection.py", U+"validation.py"],
 [("frontier settings", P+"portfolioapi.py:PortfolioWrapper.cvar_frontier"), ("tail levels", U+"functions.py:portfolio_cvar"), ("estimator settings", P+"moments.py:estimate_moments")], ["public API"])

prop("C43", "Only the numbers count, not how they are stored",
 """Functions that accept numeric arrays give the same numbers for the same values however these are stored: whole numbers as
 integers or as floats, row- or column-ordered, strided, reversed or read-only arrays, and, where lists, tuples or tables are
 documented, those as well. Nothing is truncated to an integer type, no integer division or overflow enters, no result depends
 on memory order, and nothing is written into the input.""",
 I, "all public numeric functions, arrays of 32- and 64-bit integers or floats in any memory layout, lists, tuples and tables",
 "Tests pass contiguous float arrays; integer truncation, memory order and read-only data only show with other storage.",
 [P+"optimization.py", P+"portfolioapi.py", P+"moments.py", P+"bayesian.py", P+"views.py", P+"probabilities.py", P+"stress.py", P+"ensembles.py", P+"discrete_allocation.py", U+"functions.py", U+"constraints.py", U+"performance.py", U+"projection.py", U+"weights.py"],
 [("projection", U+"projection.py:compose_repriced_scenarios"), ("risk measures", U+"functions.py:portfolio_cvar"), ("estimators", P+"moments.py")], ["public API"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for r in rows:
        f.write(json.dumps(r) + "\n")
print(len(rows))
