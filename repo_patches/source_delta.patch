From eaec520b2c06516b53d8c7c079222fda26f991a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:29 +0000
Subject: [PATCH 001/117] fix: robust SOCP uses the transposed Cholesky factor
 so the radius is sqrt(w'Sw)

---
 pyvallocation/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 77e65fe..5ded6fd 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -868,7 +868,7 @@ class RobustOptimizer(_BaseOptimization):
         # --- SOC:  ||S^{1/2}w||_2 <= t  ------------------------------- #
         G_soc = np.zeros((n + 1, n_vars))
         G_soc[0, n] = -1
-        G_soc[1:, :n] = -self._s_sqrt
+        G_soc[1:, :n] = -self._s_sqrt.T    # S = L L' => ||L' w||_2 = sqrt(w' S w)
         h_soc = np.zeros(n + 1)
 
         # --- linear inequalities ----------------------------------- #
-- 
2.43.0


From 4591da5b3931b421acaa2f2ebc2ae4baf27e7e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 002/117] fix: relaxed risk parity average-risk cone uses the
 transposed Cholesky factor

---
 pyvallocation/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 5ded6fd..721a026 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -1145,7 +1145,7 @@ class RelaxedRiskParity(_BaseOptimization):
 
         G1 = np.zeros((n + 1, n_vars), dtype=float)
         G1[0, q_idx] = -1.0
-        G1[1:, x_slice] = -self._chol
+        G1[1:, x_slice] = -self._chol.T    # ||L' x||_2 = sqrt(x' Sigma x)
         G_soc_all.append(G1)
         h_soc_all.append(np.zeros(n + 1, dtype=float))
         soc_dims.append(n + 1)
-- 
2.43.0


From f19a665ae22564c4014ba34ae0f6e8a1dc45a182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 003/117] fix: risk-budget floor x_i*zeta_i >= n*b_i*gamma^2 so
 the budgets are attained

---
 pyvallocation/optimization.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 721a026..9af3572 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -987,7 +987,7 @@ class RelaxedRiskParity(_BaseOptimization):
             A, b: Equality constraints ``A w = b``.
             risk_budgets: Optional target risk budgets :math:`b_i > 0` with
                 :math:`\\sum b_i = 1`.  When provided, the ARC floor becomes
-                :math:`x_i \\zeta_i \\ge b_i \\gamma^2` (risk budgeting).
+                :math:`x_i \\zeta_i \\ge n b_i \\gamma^2` (risk budgeting).
                 When ``None`` (default), equal budgets :math:`b_i = 1/N` are
                 used, recovering the standard ERC portfolio.
         """
@@ -1168,13 +1168,14 @@ class RelaxedRiskParity(_BaseOptimization):
             h_soc_all.append(np.zeros(n + 1, dtype=float))
             soc_dims.append(n + 1)
 
-        # ARC floor: x_i * zeta_i >= b_i * gamma^2
-        # Encoded via rotated SOC: sqrt(4*b_i*gamma^2 + (x_i - zeta_i)^2) <= x_i + zeta_i
+        # ARC floor: x_i * zeta_i >= n * b_i * gamma^2 (equal budgets: x_i * zeta_i >= gamma^2,
+        # so psi and gamma are on the same scale and psi = gamma exactly at the budgets)
+        # Encoded via rotated SOC: sqrt(4*n*b_i*gamma^2 + (x_i - zeta_i)^2) <= x_i + zeta_i
         for i in range(n):
             block = np.zeros((3, n_vars), dtype=float)
             block[0, x_slice.start + i] = -1.0
             block[0, zeta_slice.start + i] = -1.0
-            block[1, gamma_idx] = -2.0 * np.sqrt(self._risk_budgets[i])
+            block[1, gamma_idx] = -2.0 * np.sqrt(n * self._risk_budgets[i])
             block[2, x_slice.start + i] = -1.0
             block[2, zeta_slice.start + i] = 1.0
             G_soc_all.append(block)
-- 
2.43.0


From 3c420735f8c96cb11e033627649ac3356ec0fe4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 004/117] fix: max_sharpe homogenises non-zero constraint
 bounds instead of dropping them

---
 pyvallocation/optimization.py | 35 +++++++++++++----------------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 9af3572..635ba16 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -449,7 +449,7 @@ class MeanVariance(_FrontierMixin, _BaseOptimization):
 
            \min_{y}\; y^\top \Sigma\, y
            \quad\text{s.t.}\quad
-           (\mu - r_f)^\top y = 1,\; G\,y \le 0,\; A\,y = 0
+           (\mu - r_f)^\top y = 1,\; (G - h\mathbf{1}^\top)\,y \le 0,\; (A - b\mathbf{1}^\top)\,y = 0
 
         The optimal weights are ``w = y / \mathbf{1}^\top y``.
 
@@ -466,37 +466,28 @@ class MeanVariance(_FrontierMixin, _BaseOptimization):
         P = matrix(2.0 * np.asarray(self._cov, dtype=float))
         q = matrix(np.zeros(N))
 
-        # Equality: (μ-rf)'y = 1  +  any user equalities scaled to 0
+        # Full investment (1'w = 1) makes every affine constraint homogeneous in y:
+        # G w <= h  <=>  (G - h 1')y <= 0   and   A w = b  <=>  (A - b 1')y = 0.
+        # Equality: (μ-rf)'y = 1  +  the homogeneous user equalities (the budget row vanishes)
         A_rows = [mu_excess.reshape(1, -1)]
         b_vals = [1.0]
         if self._A is not None:
-            # User equalities become homogeneous: A y = 0 (since we normalize later).
-            # Non-homogeneous constraints (b != 0) cannot be enforced in this
-            # reformulation (Cornuejols-Tutuncu) and are skipped with a warning.
-            A_np = np.asarray(self._A)
-            b_np = np.asarray(self._b).ravel()
-            for row_idx in range(A_np.shape[0]):
-                if not np.isclose(b_np[row_idx], 0.0, atol=1e-12):
-                    _LOGGER.warning(
-                        "max_sharpe: equality b[%d]=%.4g is non-homogeneous; "
-                        "skipping (cannot be enforced in Cornuejols-Tutuncu "
-                        "reformulation).",
-                        row_idx, b_np[row_idx],
-                    )
+            A_hom = np.asarray(self._A, dtype=float) - np.asarray(self._b, dtype=float).reshape(-1, 1)
+            for row in A_hom:
+                if np.allclose(row, 0.0, atol=1e-12):
                     continue
-                A_rows.append(A_np[row_idx:row_idx+1])
+                A_rows.append(row.reshape(1, -1))
                 b_vals.append(0.0)
 
         A_mat = matrix(np.vstack(A_rows))
         b_vec = matrix(np.array(b_vals, dtype=float))
 
-        # Inequalities: G y <= 0 (homogeneous version of G w <= h)
+        # Inequalities (1'y >= 0 keeps the normalisation w = y / 1'y sign-preserving)
+        G_rows = [-np.ones((1, N))]
         if self._G is not None:
-            G_mat = matrix(np.asarray(self._G, dtype=float))
-            h_vec = matrix(np.zeros(np.asarray(self._G).shape[0]))
-        else:
-            G_mat = None
-            h_vec = None
+            G_rows.append(np.asarray(self._G, dtype=float) - np.asarray(self._h, dtype=float).reshape(-1, 1))
+        G_mat = matrix(np.vstack(G_rows))
+        h_vec = matrix(np.zeros(G_mat.size[0]))
 
         sol = solvers.qp(P, q, G_mat, h_vec, A_mat, b_vec)
         if sol["status"] != "optimal":
-- 
2.43.0


From 551bcc2fe0855791c915c9389645f6110443202b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 005/117] fix: mean-variance QP retries with a rescaled
 objective when the interior-point solver stalls

---
 pyvallocation/optimization.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 635ba16..5903254 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -415,11 +415,18 @@ class MeanVariance(_FrontierMixin, _BaseOptimization):
             )
         sol = solvers.qp(self._P, self._q, G, h, self._A, self._b)
         if sol["status"] != "optimal":  # scale-adaptive ridge regularisation fallback
-            P_np = np.asarray(self._P)
-            ridge = max(1e-8, 1e-8 * np.trace(P_np) / max(self._I, 1))
-            P_reg = matrix(P_np + np.eye(self._I) * ridge)
-            _LOGGER.debug("QP retry with ridge=%.2e", ridge)
-            sol = solvers.qp(P_reg, self._q, G, h, self._A, self._b)
+            P_np, q_np = np.asarray(self._P), np.asarray(self._q).ravel()
+            mean_diag = np.trace(P_np) / max(self._I, 1)
+            ridge = max(1e-8, 1e-8 * mean_diag)
+            P_reg = P_np + np.eye(self._I) * ridge
+            # the interior-point method can stall on a badly scaled objective: rescale and retry
+            for scale in (1.0, 1e-2 * mean_diag, 1e-4 * mean_diag, mean_diag):
+                if not scale > 0.0:
+                    continue
+                _LOGGER.debug("QP retry with ridge=%.2e, objective scale=%.2e", ridge, scale)
+                sol = solvers.qp(matrix(P_reg / scale), matrix(q_np / scale), G, h, self._A, self._b)
+                if sol["status"] == "optimal":
+                    break
         self._assert_optimal(sol, "QP")
         return np.asarray(sol["x"]).ravel()
 
-- 
2.43.0


From 4ffa89fec4741665abc820b2d3593efa28e36464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 006/117] fix: report signed CVaR (tail gains are negative)
 instead of its absolute value

---
 pyvallocation/portfolioapi.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index 40eb604..0c9e208 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -780,8 +780,8 @@ class PortfolioWrapper:
                     if self.dist.probabilities is not None
                     else generate_uniform_probabilities(scen.shape[0])
                 )
-                alt[f"CVaR ({int(confidence*100)}%)"] = np.abs(
-                    np.asarray(portfolio_cvar(weights, scen, probs, confidence=confidence))
+                alt[f"CVaR ({int(confidence*100)}%)"] = np.asarray(
+                    portfolio_cvar(weights, scen, probs, confidence=confidence)
                 ).reshape(-1)
             except Exception as exc:  # pragma: no cover
                 logger.debug("CVaR overlay skipped: %s", exc)
@@ -1371,7 +1371,7 @@ class PortfolioWrapper:
         )
         weights = optimizer.efficient_frontier(num_portfolios)
         returns = mu_for_frontier @ weights
-        risks = np.abs(np.asarray(portfolio_cvar(weights, scenarios, probs, confidence=1.0 - alpha))).reshape(-1)
+        risks = np.asarray(portfolio_cvar(weights, scenarios, probs, confidence=1.0 - alpha)).reshape(-1)
         raw_risks = risks.copy()
         alternate_risks: Dict[str, np.ndarray] = {}
         try:
@@ -1538,7 +1538,7 @@ class PortfolioWrapper:
             except Exception as exc:  # pragma: no cover - defensive
                 logger.debug("Unable to compute volatility overlay for robust frontier: %s", exc)
             try:
-                alt_cvar = np.abs(np.asarray(portfolio_cvar(weights_arr, scen, probs, confidence=0.95))).reshape(-1)
+                alt_cvar = np.asarray(portfolio_cvar(weights_arr, scen, probs, confidence=0.95)).reshape(-1)
                 alternate_risks["CVaR (95%)"] = alt_cvar
             except Exception as exc:  # pragma: no cover
                 logger.debug("Unable to compute CVaR overlay for robust frontier: %s", exc)
@@ -1664,7 +1664,7 @@ class PortfolioWrapper:
             ) from e
 
         actual_return = mu_for_cvar @ weights
-        risk = float(np.abs(portfolio_cvar(weights, scenarios, probs, confidence=1.0 - alpha)))
+        risk = float(portfolio_cvar(weights, scenarios, probs, confidence=1.0 - alpha))
 
         w_series = pd.Series(weights, index=self.dist.asset_names, name=f"CVaR Portfolio (Return >= {return_target:.4f})")
 
-- 
2.43.0


From dd3dbe3e5bfdc790ab6919f8ba06247bd2790d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 007/117] fix: robust solutions report the uncertainty radius
 of their weights (epigraph variable is slack at lambda=0)

---
 pyvallocation/optimization.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 5903254..44fd94f 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -931,8 +931,10 @@ class RobustOptimizer(_BaseOptimization):
         )
         self._assert_optimal(sol, "SOCP")
         x = np.asarray(sol["x"]).ravel()
-        w, t = x[:n], x[n]
-        return OptimizationResult(w, float(self._mean @ w), float(t))
+        w = x[:n]
+        # the epigraph variable is only tight when it is penalised; report the radius itself
+        radius = float(np.linalg.norm(self._s_sqrt.T @ w))
+        return OptimizationResult(w, float(self._mean @ w), radius)
 
 
 # =================================================================== #
-- 
2.43.0


From 00de7e8337922570093fbbc04bd248501b02dda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:28 +0000
Subject: [PATCH 008/117] fix: relaxed risk parity keeps return targets below
 the parity return instead of raising them

---
 pyvallocation/optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 44fd94f..e7f1ac8 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -1056,8 +1056,8 @@ class RelaxedRiskParity(_BaseOptimization):
             tolerance = max(1e-8, 1e-3 * abs(max_return_value))
             if target_used >= max_return_value - tolerance:
                 target_used = max_return_value - tolerance
-            if min_target is not None and target_used is not None:
-                target_used = max(target_used, min_target)
+                if min_target is not None:  # clipping never goes below the baseline
+                    target_used = max(target_used, min_target)
 
         c = np.zeros(n_vars, dtype=float)
         c[psi_idx] = 1.0
-- 
2.43.0


From dd01cc8d25b2067a6c45c3770dc169ec29d09c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 009/117] fix: relaxed risk parity return bound includes the
 implicit budget row

---
 pyvallocation/optimization.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index e7f1ac8..89b48b5 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -1290,8 +1290,11 @@ class RelaxedRiskParity(_BaseOptimization):
         if A_user is None:
             A_lp = np.ones((1, n), dtype=float)
             b_lp = np.array([1.0], dtype=float)
-        else:
+        elif np.any(np.all(np.isclose(A_user, 1.0, atol=1e-8, rtol=1e-8), axis=1)):
             A_lp, b_lp = A_user, b_user
+        else:  # `solve` adds the budget row, so the return bound needs it too
+            A_lp = np.vstack((np.ones((1, n), dtype=float), A_user))
+            b_lp = np.hstack((1.0, b_user))
 
         sol_lp = solvers.lp(
             matrix(-self._mean),
-- 
2.43.0


From ec2be578255c7c75a83ed78e57189dd8f571f627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:07 +0000
Subject: [PATCH 010/117] fix: integer-valued constraint matrices are accepted
 by every optimiser

---
 pyvallocation/optimization.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 89b48b5..7b7f280 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -255,10 +255,10 @@ class _BaseOptimization(ABC):
         """
         self._mean = np.asarray(mean, float)
         self._I = self._mean.size
-        self._G = matrix(G) if G is not None else None
-        self._h = matrix(h) if h is not None else None
-        self._A = matrix(A) if A is not None else None
-        self._b = matrix(b) if b is not None else None
+        self._G = matrix(np.asarray(G, dtype=float)) if G is not None else None
+        self._h = matrix(np.asarray(h, dtype=float)) if h is not None else None
+        self._A = matrix(np.asarray(A, dtype=float)) if A is not None else None
+        self._b = matrix(np.asarray(b, dtype=float)) if b is not None else None
 
     def _finalise_expected_row(self, extra: int) -> None:
         r"""Pad ``-\mu`` with *extra* zeros for later frontier sweeps.
-- 
2.43.0


From e33321e1d55dbaf22442fd2c2fa3aa2b05955178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 011/117] fix: per-call trading costs are validated and
 labelled cost series matched by asset

---
 pyvallocation/portfolioapi.py | 48 ++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index 0c9e208..d2d5cab 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -1117,27 +1117,37 @@ class PortfolioWrapper:
         Args:
             costs: Transaction cost specification.
         """
-        iw = np.asarray(costs.initial_weights, dtype=float).ravel()
-        if iw.shape != (self.dist.N,):
-            raise ValueError(
-                f"`initial_weights` must have shape ({self.dist.N},), got {iw.shape}"
-            )
+        iw, mic, pc = self._cost_vectors(costs)
         self.initial_weights = iw
-        if costs.market_impact_costs is not None:
-            mic = np.asarray(costs.market_impact_costs, dtype=float).ravel()
-            if mic.shape != (self.dist.N,):
-                raise ValueError(
-                    f"`market_impact_costs` must have shape ({self.dist.N},), got {mic.shape}"
-                )
+        if mic is not None:
             self.market_impact_costs = mic
-        if costs.proportional_costs is not None:
-            pc = np.asarray(costs.proportional_costs, dtype=float).ravel()
-            if pc.shape != (self.dist.N,):
-                raise ValueError(
-                    f"`proportional_costs` must have shape ({self.dist.N},), got {pc.shape}"
-                )
+        if pc is not None:
             self.proportional_costs = pc
 
+    def _cost_vectors(
+        self, costs: TransactionCosts
+    ) -> Tuple[np.ndarray, Optional[np.ndarray], Optional[np.ndarray]]:
+        """Return validated ``(initial_weights, market_impact_costs, proportional_costs)``.
+
+        Labelled series are matched to the assets by label.
+        """
+        def _vector(values, name: str) -> Optional[np.ndarray]:
+            if values is None:
+                return None
+            names = self.dist.asset_names
+            if isinstance(values, pd.Series) and names is not None and set(values.index) == set(names):
+                values = values.reindex(names)
+            arr = np.asarray(values, dtype=float).ravel()
+            if arr.shape != (self.dist.N,):
+                raise ValueError(f"`{name}` must have shape ({self.dist.N},), got {arr.shape}")
+            return arr
+
+        return (
+            _vector(costs.initial_weights, "initial_weights"),
+            _vector(costs.market_impact_costs, "market_impact_costs"),
+            _vector(costs.proportional_costs, "proportional_costs"),
+        )
+
     def _resolve_constraints(
         self,
         constraints: Union[Constraints, Dict[str, Any], None],
@@ -1165,9 +1175,7 @@ class PortfolioWrapper:
                 G, h, A, b = self.G, self.h, self.A, self.b
 
         if costs is not None:
-            iw = np.asarray(costs.initial_weights, dtype=float).ravel()
-            mic = np.asarray(costs.market_impact_costs, dtype=float).ravel() if costs.market_impact_costs is not None else None
-            pc = np.asarray(costs.proportional_costs, dtype=float).ravel() if costs.proportional_costs is not None else None
+            iw, mic, pc = self._cost_vectors(costs)
         else:
             iw = self.initial_weights
             mic = self.market_impact_costs
-- 
2.43.0


From d7dcd705a1feccb8e4664d30bda5e5d0947ff152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:39 +0000
Subject: [PATCH 012/117] fix: non-finite return targets and tail levels are
 rejected instead of aborting the LP solver

---
 pyvallocation/optimization.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 7b7f280..9a3c2d9 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -409,6 +409,8 @@ class MeanVariance(_FrontierMixin, _BaseOptimization):
         """
         G, h = self._G, self._h
         if return_target is not None:
+            if not np.isfinite(return_target):
+                raise ValueError("`return_target` must be a finite scalar.")
             G = self._expected_row if G is None else matrix([G, self._expected_row])
             h = matrix([-return_target]) if h is None else matrix(
                 np.append(np.asarray(h).ravel(), -return_target)
@@ -574,6 +576,8 @@ class MeanCVaR(_FrontierMixin, _BaseOptimization):
         """
         R, p = np.asarray(R, float), np.asarray(p, float)
         T, N = R.shape
+        if not 0.0 < alpha < 1.0:
+            raise ValueError("`alpha` must lie strictly between 0 and 1.")
         self._alpha = float(alpha)
         self._has_costs = initial_weights is not None and proportional_costs is not None
         super()._init_constraints(p @ R, G, h, A, b)
@@ -652,6 +656,8 @@ class MeanCVaR(_FrontierMixin, _BaseOptimization):
         """
         G, h = self._G, self._h
         if return_target is not None:
+            if not np.isfinite(return_target):
+                raise ValueError("`return_target` must be a finite scalar.")
             G = self._expected_row if G is None else matrix([G, self._expected_row])
             h = matrix([-return_target]) if h is None else matrix(
                 np.append(np.asarray(h).ravel(), -return_target)
-- 
2.43.0


From 54642f5b9c61544c3843f69e011209625505a5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 013/117] fix: relaxed risk parity rejects a NaN or infinite
 lambda_reg

---
 pyvallocation/optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 9a3c2d9..aa49fbf 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -1039,8 +1039,8 @@ class RelaxedRiskParity(_BaseOptimization):
         Solve the relaxed risk parity SOCP for a given ``lambda_reg`` and
         optional target return ``return_target``.
         """
-        if lambda_reg < 0:
-            raise ValueError("`lambda_reg` must be non-negative.")
+        if not np.isfinite(lambda_reg) or lambda_reg < 0:
+            raise ValueError("`lambda_reg` must be finite and non-negative.")
         if return_target is not None and (not np.isfinite(return_target)):
             raise ValueError("`return_target` must be a finite scalar.")
 
-- 
2.43.0


From 11052060e184a00f4dbe6fc24a49a57ccfae4b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 014/117] fix: min_variance_at_return raises
 InfeasibleOptimizationError for unattainable targets

---
 pyvallocation/portfolioapi.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index d2d5cab..c75096c 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -1606,10 +1606,12 @@ class PortfolioWrapper:
             market_impact_costs=mic
         )
 
+        if not np.isfinite(return_target):
+            raise ValueError("`return_target` must be a finite scalar.")
         try:
             # The efficient_portfolio method in the optimizer is an alias for _solve_target
             weights = optimizer.efficient_portfolio(return_target)
-        except RuntimeError as e:
+        except (RuntimeError, ValueError, ArithmeticError) as e:  # cvxopt.qp reports infeasibility as a domain error
             raise InfeasibleOptimizationError(
                 f"Optimization infeasible for target return {return_target}: {e}"
             ) from e
-- 
2.43.0


From 512d8738faffeb57ae71ae993c46c54a6ab6ca02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 015/117] fix: unknown return_type values are rejected

---
 pyvallocation/portfolioapi.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index c75096c..f022460 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -803,6 +803,12 @@ class PortfolioWrapper:
         if costs is not None:
             wrapper._apply_transaction_costs(costs)
 
+    @staticmethod
+    def _check_return_type(return_type: str) -> None:
+        """Reject anything but the two documented return conventions."""
+        if return_type not in ("simple", "log"):
+            raise ValueError(f"`return_type` must be 'simple' or 'log', got {return_type!r}.")
+
     @classmethod
     def from_moments(
         cls,
@@ -835,6 +841,7 @@ class PortfolioWrapper:
         """
         from .utils.validation import ensure_psd_matrix
 
+        cls._check_return_type(return_type)
         cov_arr = np.asarray(cov, dtype=float) if not isinstance(cov, pd.DataFrame) else cov.to_numpy(dtype=float)
         cov_psd = ensure_psd_matrix(cov_arr)
         if isinstance(cov, pd.DataFrame):
@@ -873,7 +880,7 @@ class PortfolioWrapper:
             >>> wrapper = PortfolioWrapper.from_scenarios(returns_df)
             >>> frontier = wrapper.variance_frontier()
         """
-
+        cls._check_return_type(return_type)
         if return_type == "log":
             from .utils.projection import convert_scenarios_compound_to_simple
             is_df = isinstance(scenarios, pd.DataFrame)
-- 
2.43.0


From 720652c7abe40faf853f5e7814544bdd26891a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 016/117] fix: from_prices rejects infinite prices in data
 frames as it does in arrays

---
 pyvallocation/portfolioapi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index f022460..4eedf64 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -1004,6 +1004,8 @@ class PortfolioWrapper:
                 raise ValueError("`prices` must have at least 2 rows to compute returns.")
             if prices.isnull().any().any():
                 raise ValueError("`prices` contains NaN values. Fill or drop missing data before calling from_prices.")
+            if not np.all(np.isfinite(prices.to_numpy(dtype=float))):
+                raise ValueError("`prices` contains NaN or Inf values.")
             if (prices <= 0).any().any():
                 raise ValueError("`prices` contains non-positive values. Prices must be strictly positive.")
             returns = prices.pct_change().iloc[1:]
-- 
2.43.0


From 7213128f27d927c6b4bf2600774395b3daba1e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 017/117] fix: negative or non-finite trading costs are
 rejected

---
 pyvallocation/portfolioapi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index 4eedf64..41ec24e 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -1149,6 +1149,8 @@ class PortfolioWrapper:
             arr = np.asarray(values, dtype=float).ravel()
             if arr.shape != (self.dist.N,):
                 raise ValueError(f"`{name}` must have shape ({self.dist.N},), got {arr.shape}")
+            if not np.all(np.isfinite(arr)) or (name != "initial_weights" and np.any(arr < 0)):
+                raise ValueError(f"`{name}` must be finite (and non-negative for cost coefficients).")
             return arr
 
         return (
-- 
2.43.0


From 4067a80eca0e40abc4160843aec75a29e38a181e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:46 +0000
Subject: [PATCH 018/117] fix: constraint rows with NaN or infinite
 coefficients are rejected

---
 pyvallocation/utils/constraints.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyvallocation/utils/constraints.py b/pyvallocation/utils/constraints.py
index c5bc199..828c775 100644
--- a/pyvallocation/utils/constraints.py
+++ b/pyvallocation/utils/constraints.py
@@ -303,6 +303,8 @@ def build_G_h_A_b(
             if row_arr.size != n_assets:
                 logger.error("additional_G_h row length %d mismatch", row_arr.size)
                 raise ValueError("additional_G_h row length mismatch")
+            if not np.all(np.isfinite(row_arr)):
+                raise ValueError("additional_G_h row must be finite")
             _check_number(rhs, "rhs in additional_G_h")
             G_rows.append(row_arr)
             h_vals.append(rhs)
@@ -317,6 +319,8 @@ def build_G_h_A_b(
             if row_arr.size != n_assets:
                 logger.error("additional_A_b row length %d mismatch", row_arr.size)
                 raise ValueError("additional_A_b row length mismatch")
+            if not np.all(np.isfinite(row_arr)):
+                raise ValueError("additional_A_b row must be finite")
             _check_number(rhs, "rhs in additional_A_b")
             A_rows.append(row_arr)
             b_vals.append(rhs)
-- 
2.43.0


From f1f3baed4d653ff79c594f1081f8b110431e2a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:05 +0000
Subject: [PATCH 019/117] fix: frontier selectors reject NaN and infinite
 targets

---
 pyvallocation/portfolioapi.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index 41ec24e..839657c 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -457,6 +457,8 @@ class PortfolioFrontier:
                 -   **returns** (float): The expected return of the tangency portfolio.
                 -   **risk** (float): The risk of the tangency portfolio.
         """
+        if not np.isfinite(risk_free_rate):
+            raise ValueError("`risk_free_rate` must be finite.")
         if np.all(np.isclose(self.risks, 0)):
             raise InfeasibleOptimizationError(
                 "All portfolios on the frontier have zero risk. Sharpe ratio is undefined."
@@ -561,6 +563,8 @@ class PortfolioFrontier:
         Useful for aligning risk levels across frontiers built with different
         models.
         """
+        if not np.isfinite(target_risk):
+            raise ValueError("`target_risk` must be finite.")
         risks = self._risk_vector(risk_label)
         idx = int(np.argmin(np.abs(risks - target_risk)))
         w = self.weights[:, idx]
@@ -596,6 +600,8 @@ class PortfolioFrontier:
             float: Normalized percentile in ``[0, 1]``.
         """
         pct = float(percentile)
+        if not np.isfinite(pct):
+            raise ValueError("`percentile` must be finite.")
         if pct > 1.0:
             if pct > 100.0:
                 raise ValueError("`percentile` must be within [0, 1] or [0, 100].")
-- 
2.43.0


From c9f47b92fc336445705a01fb74acede073b86a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:35 +0000
Subject: [PATCH 020/117] fix: robust optimisation with proportional costs no
 longer crashes

---
 pyvallocation/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index aa49fbf..d800807 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -866,7 +866,7 @@ class RobustOptimizer(_BaseOptimization):
         penalty = kw.get("lam", kw.get("gamma_mu"))
 
         c = np.hstack(
-            (-self._mean, penalty, (self._costs, self._costs) if self._has_costs else [])
+            (-self._mean, penalty, np.tile(np.asarray(self._costs, float), 2) if self._has_costs else [])
         )
 
         # --- SOC:  ||S^{1/2}w||_2 <= t  ------------------------------- #
-- 
2.43.0


From 9c213657b3b8e694a7a6c2377cd7adbe41e1c9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:34 +0000
Subject: [PATCH 021/117] fix: max_sharpe raises InfeasibleOptimizationError
 for unattainable risk-free rates

---
 pyvallocation/optimization.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index d800807..657bfea 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -498,7 +498,10 @@ class MeanVariance(_FrontierMixin, _BaseOptimization):
         G_mat = matrix(np.vstack(G_rows))
         h_vec = matrix(np.zeros(G_mat.size[0]))
 
-        sol = solvers.qp(P, q, G_mat, h_vec, A_mat, b_vec)
+        try:
+            sol = solvers.qp(P, q, G_mat, h_vec, A_mat, b_vec)
+        except (ValueError, ArithmeticError) as exc:  # cvxopt.qp reports infeasibility as a domain error
+            raise InfeasibleOptimizationError(f"Max Sharpe portfolio is infeasible: {exc}") from exc
         if sol["status"] != "optimal":
             raise InfeasibleOptimizationError("Max Sharpe portfolio is infeasible.")
 
-- 
2.43.0


From 3267ee6934055888d114febbfe9689733f7ab791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:38 +0000
Subject: [PATCH 022/117] fix: min_risk ensemble selector keeps its risk_label
 when a specification is reused

---
 pyvallocation/ensembles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/ensembles.py b/pyvallocation/ensembles.py
index 625ca2b..4bf7362 100644
--- a/pyvallocation/ensembles.py
+++ b/pyvallocation/ensembles.py
@@ -981,6 +981,7 @@ def _build_selector(
         return _tangency
 
     if key in {"min_risk", "minimum_risk"}:
+        risk_label = selector_kwargs.pop("risk_label", None)
 
         def _min(frontier: "PortfolioFrontier") -> pd.Series:
             """Select the minimum-risk portfolio.
@@ -991,7 +992,6 @@ def _build_selector(
             Returns:
                 pd.Series: Minimum-risk portfolio weights.
             """
-            risk_label = selector_kwargs.pop("risk_label", None)
             weights, *_ = frontier.min_risk(risk_label=risk_label)
             return weights.rename(label)
 
-- 
2.43.0


From 59b61086bc54660df042355fd80942445d571515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:38 +0000
Subject: [PATCH 023/117] fix: negative ensemble weights are rejected as
 documented

---
 pyvallocation/utils/weights.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvallocation/utils/weights.py b/pyvallocation/utils/weights.py
index 212ef7e..4ff59cb 100644
--- a/pyvallocation/utils/weights.py
+++ b/pyvallocation/utils/weights.py
@@ -126,4 +126,6 @@ def normalize_weights(
     total = float(np.sum(weights_vector))
     if not np.isfinite(total) or total <= 0.0:
         raise ValueError("`weights` must sum to a positive finite value.")
+    if np.any(weights_vector < 0.0):
+        raise ValueError("`weights` must be non-negative.")
     return weights_vector / total
-- 
2.43.0


From 75a3ce8bceff9720c59315abad66199832d01e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:38 +0000
Subject: [PATCH 024/117] fix: duplicate ensemble specification names are
 rejected instead of overwriting frontiers

---
 pyvallocation/ensembles.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyvallocation/ensembles.py b/pyvallocation/ensembles.py
index 4bf7362..5de5b80 100644
--- a/pyvallocation/ensembles.py
+++ b/pyvallocation/ensembles.py
@@ -550,6 +550,9 @@ def assemble_portfolio_ensemble(
     """
     if not specs:
         raise ValueError("At least one EnsembleSpec must be provided.")
+    spec_names = [spec.name for spec in specs]
+    if len(set(spec_names)) != len(spec_names):
+        raise ValueError("EnsembleSpec names must be unique.")
 
     frontiers: Dict[str, "PortfolioFrontier"] = {}
     selections: List[pd.Series] = []
-- 
2.43.0


From 7fc6ebcc090d6e3681c8b1ea2389894f212607e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:38 +0000
Subject: [PATCH 025/117] fix: labelled ensemble weights are matched to
 specifications when combining frontiers

---
 pyvallocation/ensembles.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/ensembles.py b/pyvallocation/ensembles.py
index 5de5b80..8c76f28 100644
--- a/pyvallocation/ensembles.py
+++ b/pyvallocation/ensembles.py
@@ -619,7 +619,9 @@ def assemble_portfolio_ensemble(
                     ensembles["average"] = average_frontiers(
                         frontier_list,
                         selections=cleaned_selections,
-                        ensemble_weights=ensemble_weights,
+                        ensemble_weights=normalize_weights(
+                            ensemble_weights, total_portfolios, spec_names
+                        ),
                     )
                 elif entry == "stack":
                     ensembles["stack"] = exposure_stack_frontiers(
-- 
2.43.0


From d2c26ce2d4eb86d1ea28b71dd61991f71e299bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 026/117] fix: ensemble specifications accept callables without
 a __name__ (functools.partial)

---
 pyvallocation/ensembles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/ensembles.py b/pyvallocation/ensembles.py
index 8c76f28..d07bd4f 100644
--- a/pyvallocation/ensembles.py
+++ b/pyvallocation/ensembles.py
@@ -755,7 +755,7 @@ def make_portfolio_spec(
     selector_fn = _build_selector(selector, selector_kwargs, name)
 
     spec_metadata = dict(metadata or {})
-    spec_metadata.setdefault("optimiser", optimiser if isinstance(optimiser, str) else optimiser.__name__)
+    spec_metadata.setdefault("optimiser", optimiser if isinstance(optimiser, str) else getattr(optimiser, "__name__", repr(optimiser)))
     spec_metadata.setdefault("mean_estimator", mean_estimator)
     spec_metadata.setdefault("cov_estimator", cov_estimator)
     spec_metadata.setdefault("use_scenarios", use_scenarios)
-- 
2.43.0


From 631a53d3b9bb7fd32bb587de9525c64f798c0a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:13 +0000
Subject: [PATCH 027/117] fix: risks of riskless portfolios are zero instead of
 NaN when rounding makes the variance negative

---
 pyvallocation/optimization.py      |  2 +-
 pyvallocation/portfolioapi.py      | 10 +++++-----
 pyvallocation/utils/functions.py   |  2 +-
 pyvallocation/utils/performance.py |  2 +-
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 657bfea..c199aaa 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -512,7 +512,7 @@ class MeanVariance(_FrontierMixin, _BaseOptimization):
 
         w = y / y_sum
         ret = float(np.dot(np.asarray(self._mean).ravel(), w))
-        risk = float(np.sqrt(w @ np.asarray(self._cov, dtype=float) @ w))
+        risk = float(np.sqrt(max(w @ np.asarray(self._cov, dtype=float) @ w, 0.0)))
         return OptimizationResult(weights=w, nominal_return=ret, risk=risk)
 
 # =================================================================== #
diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index 839657c..d73f977 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -1343,7 +1343,7 @@ class PortfolioWrapper:
         weights = optimizer.efficient_frontier(num_portfolios)
         mu_r, cov_r = self._report_mu_cov()
         returns = mu_r @ weights
-        risks = np.sqrt(np.sum((weights.T @ cov_r) * weights.T, axis=1))
+        risks = np.sqrt(np.maximum(np.sum((weights.T @ cov_r) * weights.T, axis=1), 0.0))
 
         alternate_risks = self._cvar_overlay(weights)
 
@@ -1401,7 +1401,7 @@ class PortfolioWrapper:
         alternate_risks: Dict[str, np.ndarray] = {}
         try:
             cov = np.cov(scenarios.T, aweights=probs, bias=True)
-            vols = np.sqrt(np.sum((weights.T @ cov) * weights.T, axis=1))
+            vols = np.sqrt(np.maximum(np.sum((weights.T @ cov) * weights.T, axis=1), 0.0))
             alternate_risks["Volatility"] = vols
         except Exception as exc:  # pragma: no cover - defensive convenience
             logger.debug("Unable to compute volatility proxy for CVaR frontier: %s", exc)
@@ -1543,7 +1543,7 @@ class PortfolioWrapper:
                     cov_ref = np.asarray(cov_ref, dtype=float)
                 if cov_ref.shape != (weights_arr.shape[0], weights_arr.shape[0]):
                     raise ValueError("`return_cov` must be a square matrix matching asset count.")
-                vols = np.sqrt(np.sum((weights_arr.T @ cov_ref) * weights_arr.T, axis=1))
+                vols = np.sqrt(np.maximum(np.sum((weights_arr.T @ cov_ref) * weights_arr.T, axis=1), 0.0))
                 alternate_risks["Volatility"] = vols
             except Exception as exc:  # pragma: no cover - defensive
                 logger.debug("Unable to compute volatility overlay for robust frontier: %s", exc)
@@ -1558,7 +1558,7 @@ class PortfolioWrapper:
                 )
                 if "Volatility" not in alternate_risks:
                     cov = np.cov(scen.T, aweights=probs, bias=True)
-                    vols = np.sqrt(np.sum((weights_arr.T @ cov) * weights_arr.T, axis=1))
+                    vols = np.sqrt(np.maximum(np.sum((weights_arr.T @ cov) * weights_arr.T, axis=1), 0.0))
                     alternate_risks["Volatility"] = vols
             except Exception as exc:  # pragma: no cover - defensive
                 logger.debug("Unable to compute volatility overlay for robust frontier: %s", exc)
@@ -1635,7 +1635,7 @@ class PortfolioWrapper:
 
         mu_r, cov_r = self._report_mu_cov()
         actual_return = mu_r @ weights
-        risk = np.sqrt(weights.T @ cov_r @ weights)
+        risk = np.sqrt(max(weights.T @ cov_r @ weights, 0.0))
 
         w_series = pd.Series(weights, index=self.dist.asset_names, name=f"MV Portfolio (Return >= {return_target:.4f})")
 
diff --git a/pyvallocation/utils/functions.py b/pyvallocation/utils/functions.py
index 3a49518..0581f15 100644
--- a/pyvallocation/utils/functions.py
+++ b/pyvallocation/utils/functions.py
@@ -46,7 +46,7 @@ def portfolio_volatility(
         w: Weights vector ``(N,)`` or matrix ``(N, M)``.
         cov: Covariance matrix ``(N, N)``.
     """
-    var = portfolio_variance(w, cov)
+    var = np.maximum(portfolio_variance(w, cov), 0.0)
     return float(np.sqrt(var)) if np.isscalar(var) else np.sqrt(var)
 
 def portfolio_cvar(
diff --git a/pyvallocation/utils/performance.py b/pyvallocation/utils/performance.py
index e5d1fab..783ba20 100644
--- a/pyvallocation/utils/performance.py
+++ b/pyvallocation/utils/performance.py
@@ -189,7 +189,7 @@ def performance_report(
     cov_mat = np.asarray(cov, dtype=float)
 
     mean = float(np.dot(w_vec, mu_vec.reshape(-1)))
-    stdev = float(np.sqrt(w_vec @ cov_mat @ w_vec))
+    stdev = float(np.sqrt(max(w_vec @ cov_mat @ w_vec, 0.0)))
     w_matrix = w_vec.reshape(-1, 1)
     var = float(portfolio_var(w_matrix, R_arr, p, confidence=conf, demean=demean))
     cvar = float(portfolio_cvar(w_matrix, R_arr, p, confidence=conf, demean=demean))
-- 
2.43.0


From 32901620bea96593faa9eac3f1dee0ab3afe297a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:10 +0000
Subject: [PATCH 028/117] fix: rounding noise of large fully invested
 allocations no longer raises

---
 pyvallocation/discrete_allocation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/discrete_allocation.py b/pyvallocation/discrete_allocation.py
index 847eb63..4a81e5e 100644
--- a/pyvallocation/discrete_allocation.py
+++ b/pyvallocation/discrete_allocation.py
@@ -177,7 +177,7 @@ def _build_result(inputs: DiscreteAllocationInput, raw_shares: pd.Series) -> Dis
     portfolio_value = float(values.sum())
     leftover = float(inputs.total_value - portfolio_value)
     # Numerical noise guard
-    if leftover < 0 and abs(leftover) < 1e-8:
+    if leftover < 0 and abs(leftover) < 1e-8 * max(1.0, inputs.total_value):
         leftover = 0.0
     elif leftover < 0:
         raise RuntimeError("Allocation exceeded available funds by more than tolerance.")
-- 
2.43.0


From bc7a1dd1353d3c8185fcadba64d5d70cd576acb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:10 +0000
Subject: [PATCH 029/117] fix: integer-programme allocation works in units of
 the total value and keeps within budget

---
 pyvallocation/discrete_allocation.py | 50 +++++++++++++++-------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/pyvallocation/discrete_allocation.py b/pyvallocation/discrete_allocation.py
index 4a81e5e..4e49842 100644
--- a/pyvallocation/discrete_allocation.py
+++ b/pyvallocation/discrete_allocation.py
@@ -361,8 +361,9 @@ def allocate_mip(
     if n == 0:
         raise ValueError("No assets to allocate.")
 
-    price_per_lot = prices.values * lot_sizes.values
-    target_values = weights.values * inputs.total_value
+    # Work in units of the total value because the solver tolerances are absolute.
+    price_per_lot = prices.values * lot_sizes.values / inputs.total_value
+    target_values = weights.values
 
     # Decision variables: x (n integers), u (n continuous), r (cash)
     num_vars = 2 * n + 1
@@ -372,17 +373,17 @@ def allocate_mip(
         [cash_penalty],
     ])
 
-    max_shares_per_lot = np.where(price_per_lot > 0, np.floor(inputs.total_value / price_per_lot).astype(int), 0)
+    max_shares_per_lot = np.where(price_per_lot > 0, np.floor(1.0 / price_per_lot).astype(int), 0)
     max_shares_per_lot = np.clip(max_shares_per_lot + 1, 0, None)
 
     # With short positions, short-sale proceeds can push leftover cash
-    # above total_value, so the upper bound must account for the maximum
+    # above the total value, so the upper bound must account for the maximum
     # possible proceeds from negative lots.
     short_proceeds_max = float(
         np.sum(np.where(weights.values < 0, max_shares_per_lot * price_per_lot, 0.0))
     )
-    effective_cash_ub = inputs.total_value + short_proceeds_max
-    upper_cash = effective_cash_ub if max_cash is None else min(max_cash, effective_cash_ub)
+    effective_cash_ub = 1.0 + short_proceeds_max
+    upper_cash = effective_cash_ub if max_cash is None else min(max_cash / inputs.total_value, effective_cash_ub)
 
     # Allow negative lots for short positions
     lot_lb = np.where(
@@ -391,24 +392,22 @@ def allocate_mip(
     lb = np.concatenate([lot_lb, np.zeros(n + 1)])  # u and r stay >= 0
     ub = np.concatenate([
         max_shares_per_lot.astype(float),
-        np.full(n, inputs.total_value, dtype=float),
+        np.ones(n),
         [upper_cash],
     ])
-    bounds = optimize.Bounds(lb, ub)
-
     integrality = np.concatenate([
         np.ones(n, dtype=int),
         np.zeros(n + 1, dtype=int),
     ])
 
-    # Equality constraint: sum(price_per_lot * x) + r = total_value
+    # Equality constraint: sum(price_per_lot * x) + r = 1
     equality_matrix = np.zeros((1, num_vars))
     equality_matrix[0, :n] = price_per_lot
     equality_matrix[0, -1] = 1.0
     equality_constraint = optimize.LinearConstraint(
         equality_matrix,
-        lb=np.array([inputs.total_value]),
-        ub=np.array([inputs.total_value]),
+        lb=np.array([1.0]),
+        ub=np.array([1.0]),
     )
 
     # Inequalities for absolute error handling
@@ -432,19 +431,24 @@ def allocate_mip(
     )
 
     options = solver_options or {}
-    result = optimize.milp(
-        c=c,
-        integrality=integrality,
-        bounds=bounds,
-        constraints=[equality_constraint, upper_constraint, lower_constraint],
-        options=options,
-    )
+    for _ in range(3):
+        result = optimize.milp(
+            c=c,
+            integrality=integrality,
+            bounds=optimize.Bounds(lb, ub),
+            constraints=[equality_constraint, upper_constraint, lower_constraint],
+            options=options,
+        )
 
-    if not result.success:
-        raise RuntimeError(f"MILP solver failed with status {result.status}: {result.message}")
+        if not result.success:
+            raise RuntimeError(f"MILP solver failed with status {result.status}: {result.message}")
 
-    solution = result.x
-    lots = np.rint(solution[:n]).astype(int)
+        lots = np.rint(result.x[:n]).astype(int)
+        # The solver may overspend by its feasibility tolerance (1e-6): keep that much cash and retry.
+        overspend = float(price_per_lot @ lots) - 1.0
+        if overspend <= 1e-9:
+            break
+        lb[-1] += overspend + 2e-6
     shares = pd.Series(lots * lot_sizes.values, index=weights.index, dtype=int)
 
     return _build_result(inputs, shares)
-- 
2.43.0


From 8d05a3336f4f49117abaa862be9bfdb60e6d1378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:35 +0000
Subject: [PATCH 030/117] fix: integer-programme allocation reaches targets
 beyond the total value when short sales finance them

---
 pyvallocation/discrete_allocation.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/discrete_allocation.py b/pyvallocation/discrete_allocation.py
index 4e49842..088967f 100644
--- a/pyvallocation/discrete_allocation.py
+++ b/pyvallocation/discrete_allocation.py
@@ -373,7 +373,13 @@ def allocate_mip(
         [cash_penalty],
     ])
 
-    max_shares_per_lot = np.where(price_per_lot > 0, np.floor(1.0 / price_per_lot).astype(int), 0)
+    # Short sales can finance positions beyond the total value: bound the holdings by the
+    # largest deviation that can still beat holding nothing.
+    reach = 1.0
+    if inputs._has_shorts:
+        gross = float(np.abs(target_values).sum())
+        reach = 2.0 * gross + max(float(cash_penalty), 1.0)
+    max_shares_per_lot = np.where(price_per_lot > 0, np.floor(reach / price_per_lot).astype(int), 0)
     max_shares_per_lot = np.clip(max_shares_per_lot + 1, 0, None)
 
     # With short positions, short-sale proceeds can push leftover cash
@@ -392,7 +398,7 @@ def allocate_mip(
     lb = np.concatenate([lot_lb, np.zeros(n + 1)])  # u and r stay >= 0
     ub = np.concatenate([
         max_shares_per_lot.astype(float),
-        np.ones(n),
+        np.full(n, np.inf),
         [upper_cash],
     ])
     integrality = np.concatenate([
-- 
2.43.0


From dc9d63c27b231a2c30801f479fbefa9ff8c3915e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:35 +0000
Subject: [PATCH 031/117] fix: non-finite prices, budgets and weights and
 fractional lot sizes are rejected by discrete allocation

---
 pyvallocation/discrete_allocation.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pyvallocation/discrete_allocation.py b/pyvallocation/discrete_allocation.py
index 088967f..53595a3 100644
--- a/pyvallocation/discrete_allocation.py
+++ b/pyvallocation/discrete_allocation.py
@@ -60,16 +60,13 @@ def _lot_sizes_to_series(lot_sizes: LotSizeLike, index: Iterable[str]) -> pd.Ser
     """
     if lot_sizes is None:
         return pd.Series(1, index=index, dtype=int)
-    if isinstance(lot_sizes, pd.Series):
-        series = lot_sizes.astype(int)
-    elif isinstance(lot_sizes, Mapping):
-        series = pd.Series(lot_sizes, dtype=int)
+    if isinstance(lot_sizes, (pd.Series, Mapping)):
+        series = pd.Series(lot_sizes, dtype=float)
     else:
         raise TypeError("`lot_sizes` must be a mapping or pandas Series if provided.")
-    series = series.reindex(index).fillna(1).astype(int)
-    if (series <= 0).any():
+    if not ((series > 0) & (series == np.floor(series)) & np.isfinite(series)).all():
         raise ValueError("All lot sizes must be positive integers.")
-    return series
+    return series.reindex(index).fillna(1).astype(int)
 
 
 @dataclass
@@ -99,9 +96,12 @@ class DiscreteAllocationInput:
 
         missing_prices = set(weights.index) - set(latest_prices.index)
         if missing_prices:
-            missing_str = ", ".join(sorted(missing_prices))
+            missing_str = ", ".join(sorted(map(str, missing_prices)))
             raise ValueError(f"Missing latest prices for assets: {missing_str}")
 
+        if not np.isfinite(weights).all():
+            raise ValueError("`weights` must be finite.")
+
         weights = weights.loc[~np.isclose(weights, 0.0)]
         if weights.empty:
             raise ValueError("`weights` must contain at least one non-zero entry.")
@@ -109,10 +109,10 @@ class DiscreteAllocationInput:
         self._has_shorts = bool((weights < 0).any())
 
         latest_prices = latest_prices.reindex(weights.index)
-        if (latest_prices <= 0).any():
+        if not ((latest_prices > 0) & np.isfinite(latest_prices)).all():
             raise ValueError("All latest prices must be strictly positive.")
 
-        if self.total_value <= 0:
+        if not (np.isfinite(self.total_value) and self.total_value > 0):
             raise ValueError("`total_value` must be positive.")
 
         lot_sizes = _lot_sizes_to_series(self.lot_sizes, weights.index)
-- 
2.43.0


From a0918c7e614f7d0842b1af7b66fa5155a07031e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:20 +0000
Subject: [PATCH 032/117] fix: probability vectors whose sum is off by up to
 1e-5 are normalised instead of passed through

---
 pyvallocation/probabilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/probabilities.py b/pyvallocation/probabilities.py
index 73b2bfd..ff46647 100644
--- a/pyvallocation/probabilities.py
+++ b/pyvallocation/probabilities.py
@@ -40,7 +40,7 @@ def normalize_probability_vector(
     total = probs.sum()
     if not np.isfinite(total) or total <= 0.0:
         raise ValueError(f"{name} must sum to a positive finite value.")
-    if not np.isclose(total, 1.0):
+    if abs(total - 1.0) > 1e-12:
         probs = probs / total
     return probs
 
-- 
2.43.0


From 4777b0a6e6c978377e6fe2acca1510f017ad936d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:20 +0000
Subject: [PATCH 033/117] fix: exponential decay probabilities reject empty
 samples and NaN half-lives

---
 pyvallocation/probabilities.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/probabilities.py b/pyvallocation/probabilities.py
index ff46647..59f6f49 100644
--- a/pyvallocation/probabilities.py
+++ b/pyvallocation/probabilities.py
@@ -106,7 +106,9 @@ def generate_exp_decay_probabilities(
         np.ndarray: Exponentially decaying probabilities summing to one.
     """
 
-    if half_life <= 0:
+    if num_observations <= 0:
+        raise ValueError("num_observations must be greater than 0.")
+    if not half_life > 0:  # also rejects NaN
         raise ValueError("half_life must be greater than 0.")
     p = np.exp(
         -np.log(2) / half_life * (num_observations - np.arange(1, num_observations + 1))
-- 
2.43.0


From 5a4131bc972ce5d8b97595422279cb206455cd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:37 +0000
Subject: [PATCH 034/117] fix: portfolio_var accepts data frames of weights
 like portfolio_cvar

---
 pyvallocation/utils/functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/utils/functions.py b/pyvallocation/utils/functions.py
index 0581f15..953de69 100644
--- a/pyvallocation/utils/functions.py
+++ b/pyvallocation/utils/functions.py
@@ -145,8 +145,9 @@ def portfolio_var(
     if demean:
         R_arr = R_arr - p.T @ R_arr
 
+    W = _ensure_weights_matrix(w)
     with np.errstate(over='ignore', under='ignore', invalid='ignore', divide='ignore'):
-        pf_pnl = R_arr @ w
+        pf_pnl = R_arr @ W
     if pf_pnl.ndim == 1:
         pf_pnl = pf_pnl.reshape(-1, 1)
 
-- 
2.43.0


From 26ee4814e6661def8f4b0a1d6ae94f7e8a957101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:37 +0000
Subject: [PATCH 035/117] fix: scenario_pnl rejects weights whose labels miss
 scenario assets instead of returning NaN

---
 pyvallocation/utils/performance.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyvallocation/utils/performance.py b/pyvallocation/utils/performance.py
index 783ba20..c441276 100644
--- a/pyvallocation/utils/performance.py
+++ b/pyvallocation/utils/performance.py
@@ -66,10 +66,14 @@ def scenario_pnl(weights: WeightsLike, scenarios: ArrayLike) -> ArrayLike:
     if isinstance(weights, pd.Series):
         if columns is not None and list(weights.index) != columns:
             weights = weights.reindex(columns)
+            if weights.isna().any():
+                raise ValueError("Weight labels do not match scenario asset names.")
         w = weights.to_numpy(dtype=float).reshape(-1, 1)
     elif isinstance(weights, pd.DataFrame):
         if columns is not None and list(weights.index) != columns:
             weights = weights.reindex(columns)
+            if weights.isna().any().any():
+                raise ValueError("Weight labels do not match scenario asset names.")
         w = weights.to_numpy(dtype=float)
     else:
         arr_w = np.asarray(weights, dtype=float)
-- 
2.43.0


From 1b9c6b43d322ac755f70fcefa00d81ecdf71a192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:37 +0000
Subject: [PATCH 036/117] fix: scenario_pnl keeps the scenario axis for a
 single scenario

---
 pyvallocation/utils/performance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/utils/performance.py b/pyvallocation/utils/performance.py
index c441276..4559216 100644
--- a/pyvallocation/utils/performance.py
+++ b/pyvallocation/utils/performance.py
@@ -95,7 +95,7 @@ def scenario_pnl(weights: WeightsLike, scenarios: ArrayLike) -> ArrayLike:
     if isinstance(weights, pd.Series):
         series = pd.Series(pnl[:, 0], index=index, name=weights.name)
         return series
-    return pnl.squeeze()
+    return pnl[:, 0] if pnl.shape[1] == 1 else pnl
 
 
 def performance_report(
-- 
2.43.0


From e7796ca870ac8984b28a4263ea33aa1e2c350165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:17 +0000
Subject: [PATCH 037/117] fix: drawdowns count losses from the initial wealth

---
 pyvallocation/utils/performance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/utils/performance.py b/pyvallocation/utils/performance.py
index 4559216..134d418 100644
--- a/pyvallocation/utils/performance.py
+++ b/pyvallocation/utils/performance.py
@@ -308,8 +308,8 @@ def drawdown_quantile(
     port_cum = paths @ w  # (n_paths, horizon)
     wealth = 1.0 + port_cum  # wealth relative to $1
 
-    # Running maximum and drawdown
-    running_max = np.maximum.accumulate(wealth, axis=1)
+    # Running maximum and drawdown (the initial wealth of $1 is the first peak)
+    running_max = np.maximum(np.maximum.accumulate(wealth, axis=1), 1.0)
     drawdowns = (running_max - wealth) / np.where(running_max > 0, running_max, 1.0)
     max_dd = drawdowns.max(axis=1)  # (n_paths,)
 
-- 
2.43.0


From c4739e41676e6df26823bc487f58b6fdb9221242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:17 +0000
Subject: [PATCH 038/117] fix: drawdown_quantile matches labelled weights to
 the invariant columns

---
 pyvallocation/utils/performance.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyvallocation/utils/performance.py b/pyvallocation/utils/performance.py
index 134d418..5c1bc23 100644
--- a/pyvallocation/utils/performance.py
+++ b/pyvallocation/utils/performance.py
@@ -295,6 +295,14 @@ def drawdown_quantile(
     """
     from .projection import simulate_paths, reprice_exp as _reprice_exp
 
+    if isinstance(weights, Mapping):
+        weights = pd.Series(weights, dtype=float)
+    if isinstance(weights, (pd.Series, pd.DataFrame)) and isinstance(invariants, pd.DataFrame):
+        if set(weights.index) == set(invariants.columns):
+            weights = weights.reindex(invariants.columns)
+        elif reprice is None:
+            raise ValueError("Weight labels do not match the invariant columns.")
+
     if reprice is None:
         reprice = _reprice_exp
 
-- 
2.43.0


From 024107e1a2ffa4db989e32dd152216fa40b81dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:17 +0000
Subject: [PATCH 039/117] fix: simulate_paths rejects non-positive horizons and
 path counts and improper probabilities

---
 pyvallocation/utils/projection.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/utils/projection.py b/pyvallocation/utils/projection.py
index 41ed005..9b84db1 100644
--- a/pyvallocation/utils/projection.py
+++ b/pyvallocation/utils/projection.py
@@ -4,6 +4,8 @@ from typing import Union
 import numpy as np
 import pandas as pd
 
+from ..probabilities import resolve_probabilities
+
 logger = logging.getLogger(__name__)
 
 
@@ -290,10 +292,13 @@ def simulate_paths(
         R_np = R_np.reshape(-1, 1)
     if R_np.ndim != 2:
         raise ValueError("`R` must be 1D or 2D.")
+    if horizon <= 0:
+        raise ValueError("`horizon` must be a positive integer.")
+    if n_paths <= 0:
+        raise ValueError("`n_paths` must be a positive integer.")
 
     T, N = R_np.shape
-    weights = np.asarray(p, dtype=float).ravel() if p is not None else np.full(T, 1.0 / T)
-    weights = weights / weights.sum()
+    weights = resolve_probabilities(p, T)
 
     rng = np.random.default_rng(seed)
     idx = rng.choice(T, size=(n_paths, horizon), p=weights)
-- 
2.43.0


From 2af90eccc315ca1e1417aa7a9593f8672b079140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:17 +0000
Subject: [PATCH 040/117] fix: simulate_paths supports repricers whose
 instrument count differs from the driver count

---
 pyvallocation/utils/projection.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyvallocation/utils/projection.py b/pyvallocation/utils/projection.py
index 9b84db1..3856e79 100644
--- a/pyvallocation/utils/projection.py
+++ b/pyvallocation/utils/projection.py
@@ -307,10 +307,10 @@ def simulate_paths(
 
     if reprice is not None:
         # Apply repricing at each time step
-        out = np.empty_like(cumulative)
-        for t in range(horizon):
-            out[:, t, :] = reprice(cumulative[:, t, :])
-        return out
+        return np.stack(
+            [np.asarray(reprice(cumulative[:, t, :])).reshape(n_paths, -1) for t in range(horizon)],
+            axis=1,
+        )
 
     return cumulative
 
-- 
2.43.0


From 258e04e7aeec6942edfa875661ce5e1a75225b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:17 +0000
Subject: [PATCH 041/117] fix: make_repricing_fn prices current levels of
 several drivers as one scenario row

---
 pyvallocation/utils/projection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/utils/projection.py b/pyvallocation/utils/projection.py
index 3856e79..f4bef7a 100644
--- a/pyvallocation/utils/projection.py
+++ b/pyvallocation/utils/projection.py
@@ -413,7 +413,9 @@ def make_repricing_fn(pricing_fn, current_drivers: np.ndarray):
         >>> # repricer(delta_y) returns bond P&L scenarios
     """
     y0 = np.asarray(current_drivers, dtype=float)
-    p0 = pricing_fn(y0)
+    # Multi-driver levels are priced as a one-row scenario matrix because
+    # ``pricing_fn`` is vectorised over the first (scenario) axis.
+    p0 = pricing_fn(y0 if y0.size <= 1 else y0.reshape(1, -1))
 
     def _reprice(delta_y: np.ndarray) -> np.ndarray:
         y_horizon = y0 + delta_y
-- 
2.43.0


From cd46afc55fa1234a92abbbf056b4ad0183f5ce90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:17 +0000
Subject: [PATCH 042/117] fix: stress reports show zero deviation for riskless
 portfolios instead of NaN

---
 pyvallocation/stress.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/stress.py b/pyvallocation/stress.py
index a073219..8090ea6 100644
--- a/pyvallocation/stress.py
+++ b/pyvallocation/stress.py
@@ -188,7 +188,7 @@ def stress_test(
         mean = (W.T @ mu_vec).reshape(-1)
         var = np.asarray(portfolio_var(W, R_matrix, probs, confidence=conf, demean=demean)).reshape(-1)
         cvar = np.asarray(portfolio_cvar(W, R_matrix, probs, confidence=conf, demean=demean)).reshape(-1)
-        stdev = np.sqrt(np.einsum("ik,kl,il->i", W.T, sigma_mat, W.T))
+        stdev = np.sqrt(np.maximum(np.einsum("ik,kl,il->i", W.T, sigma_mat, W.T), 0.0))
         ens = compute_effective_number_scenarios(probs)
         return mean, stdev, var, cvar, ens
 
@@ -522,7 +522,7 @@ def stress_invariants(
             sigma_m = np.asarray(sigma, float)
             w_v = np.asarray(w, float).ravel()
             mean_r = float(w_v @ mu_v)
-            stdev_r = float(np.sqrt(w_v @ sigma_m @ w_v))
+            stdev_r = float(np.sqrt(max(w_v @ sigma_m @ w_v, 0.0)))
             var_r = float(np.asarray(portfolio_var(w_v, R, p, confidence=confidence, demean=demean)).ravel()[0])
             cvar_r = float(np.asarray(portfolio_cvar(w_v, R, p, confidence=confidence, demean=demean)).ravel()[0])
             ens = compute_effective_number_scenarios(p)
-- 
2.43.0


From 77d146ff77e4b474dc338b5f10d095698e942231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:53 +0000
Subject: [PATCH 043/117] fix: project_scenarios normalises probabilities whose
 sum is off by up to 1e-5

---
 pyvallocation/utils/projection.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyvallocation/utils/projection.py b/pyvallocation/utils/projection.py
index f4bef7a..f6ae9cf 100644
--- a/pyvallocation/utils/projection.py
+++ b/pyvallocation/utils/projection.py
@@ -237,8 +237,7 @@ def project_scenarios(R, investment_horizon=2, p=None, n_simulations=1000,
         weight_sum = weights.sum()
         if not np.isfinite(weight_sum) or weight_sum <= 0:
             raise ValueError("Scenario probabilities must sum to a positive finite value.")
-        if not np.isclose(weight_sum, 1.0):
-            weights = weights / weight_sum
+        weights = weights / weight_sum
 
     rng = np.random.default_rng(seed)
     idx = rng.choice(num_rows, size=(n_simulations, investment_horizon), p=weights)
-- 
2.43.0


From b8aeb28651e79a234e9eae7c5c0a77c1abf07333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:53 +0000
Subject: [PATCH 044/117] fix: relative entropy of stress tests is never
 negative and infinite off the nominal support

---
 pyvallocation/stress.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyvallocation/stress.py b/pyvallocation/stress.py
index 8090ea6..60ce59a 100644
--- a/pyvallocation/stress.py
+++ b/pyvallocation/stress.py
@@ -99,10 +99,10 @@ def _kl_divergence(p_star: np.ndarray, p_nom: np.ndarray) -> float:
     Returns:
         float: KL divergence value.
     """
-    eps = 1e-16
-    p1 = np.clip(p_star, eps, None)
-    p0 = np.clip(p_nom, eps, None)
-    return float(np.sum(p1 * np.log(p1 / p0)))
+    mask = p_star > 0.0  # convention 0 * log(0) = 0
+    if np.any(p_nom[mask] <= 0.0):
+        return float("inf")
+    return max(float(np.sum(p_star[mask] * np.log(p_star[mask] / p_nom[mask]))), 0.0)
 
 
 def stress_test(
-- 
2.43.0


From c9b1d022fe85d4c1beaba13dc7d369f8bfce9d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:06 +0000
Subject: [PATCH 045/117] fix: stress_invariants matches labelled and mapped
 weights to instruments when views are given

---
 pyvallocation/stress.py | 39 +++++++++------------------------------
 1 file changed, 9 insertions(+), 30 deletions(-)

diff --git a/pyvallocation/stress.py b/pyvallocation/stress.py
index 60ce59a..86e2654 100644
--- a/pyvallocation/stress.py
+++ b/pyvallocation/stress.py
@@ -508,35 +508,14 @@ def stress_invariants(
         pnl_df = pnl_nom
 
     if pnl_stressed is not None:
-        # Compute stressed probabilities on the P&L grid — since we bootstrapped
-        # with stressed probs the P&L scenarios already embed the stress. We
-        # compare the two scenario sets via stress_test with a transform.
-        nom_probs = resolve_probabilities(None, pnl_nom.shape[0])
-        stressed_probs = resolve_probabilities(None, pnl_stressed.shape[0])
-
-        # Compute metrics for both distributions directly
-        def _metrics(R, p, w):
-            from .moments import estimate_sample_moments
-            mu, sigma = estimate_sample_moments(R, p)
-            mu_v = np.asarray(mu, float).ravel()
-            sigma_m = np.asarray(sigma, float)
-            w_v = np.asarray(w, float).ravel()
-            mean_r = float(w_v @ mu_v)
-            stdev_r = float(np.sqrt(max(w_v @ sigma_m @ w_v, 0.0)))
-            var_r = float(np.asarray(portfolio_var(w_v, R, p, confidence=confidence, demean=demean)).ravel()[0])
-            cvar_r = float(np.asarray(portfolio_cvar(w_v, R, p, confidence=confidence, demean=demean)).ravel()[0])
-            ens = compute_effective_number_scenarios(p)
-            return mean_r, stdev_r, var_r, cvar_r, ens
-
-        w_arr = np.asarray(weights, float).ravel() if not isinstance(weights, pd.Series) else weights.values
-        m_n = _metrics(pnl_nom, nom_probs, w_arr)
-        m_s = _metrics(pnl_stressed, stressed_probs, w_arr)
-        ci = int(round(confidence * 100))
-        return pd.DataFrame({
-            "return_nom": [m_n[0]], "stdev_nom": [m_n[1]],
-            f"VaR{ci}_nom": [m_n[2]], f"CVaR{ci}_nom": [m_n[3]], "ENS_nom": [m_n[4]],
-            "return_stressed": [m_s[0]], "stdev_stressed": [m_s[1]],
-            f"VaR{ci}_stressed": [m_s[2]], f"CVaR{ci}_stressed": [m_s[3]], "ENS_stressed": [m_s[4]],
-        })
+        # Bootstrapping with the stressed probabilities embeds the stress in the
+        # P&L scenarios, so each set is reported under uniform probabilities.
+        stressed_df = pnl_stressed
+        if isinstance(pnl_df, pd.DataFrame):
+            stressed_df = pd.DataFrame(pnl_stressed, columns=pnl_df.columns)
+        nominal = stress_test(weights, pnl_df, confidence=confidence, demean=demean)
+        stressed = stress_test(weights, stressed_df, confidence=confidence, demean=demean)
+        stressed.columns = [c.removesuffix("_nom") + "_stressed" for c in stressed.columns]
+        return pd.concat([nominal, stressed], axis=1)
 
     return stress_test(weights, pnl_df, confidence=confidence, demean=demean)
-- 
2.43.0


From 8f44219551c8d466421a4532eb99bed11c5cec99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:48 +0000
Subject: [PATCH 046/117] fix: simple-to-compound scenario conversion keeps
 pandas labels like its inverse

---
 pyvallocation/utils/projection.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/utils/projection.py b/pyvallocation/utils/projection.py
index f6ae9cf..4aedb0b 100644
--- a/pyvallocation/utils/projection.py
+++ b/pyvallocation/utils/projection.py
@@ -49,7 +49,7 @@ def convert_scenarios_simple_to_compound(scenarios: np.ndarray) -> np.ndarray:
             greater than -1 (i.e., ``1 + r > 0``).
 
     Returns:
-        np.ndarray: Log/compound return scenarios.
+        np.ndarray: Log/compound return scenarios (pandas labels are kept).
 
     Raises:
         ValueError: If any scenario has a return <= -1.
@@ -60,7 +60,10 @@ def convert_scenarios_simple_to_compound(scenarios: np.ndarray) -> np.ndarray:
             "Simple returns must be > -1 for log transformation "
             f"(min value: {float(np.min(arr)):.6f})."
         )
-    return np.log(1 + arr)
+    log_returns = np.log(1 + arr)
+    if isinstance(scenarios, pd.Series):
+        return _wrap_vector(log_returns, scenarios)
+    return _wrap_matrix(log_returns, scenarios)
 
 
 def _to_numpy(x):
-- 
2.43.0


From 8d3d3c458467039b6c3e9ace70de0e6e28e8c1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:58 +0000
Subject: [PATCH 047/117] fix: entropy pooling meets the views to solver
 precision and refuses infeasible ones

---
 pyvallocation/views.py | 129 ++++++++++++++++++++++++++---------------
 1 file changed, 82 insertions(+), 47 deletions(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 549c53f..7f1d1c8 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -219,6 +219,7 @@ def entropy_pooling(
 
     Raises:
         ValueError: If an unsupported ``method`` is specified.
+        RuntimeError: If no probability vector satisfying the views was found.
 
     Notes:
         Adapted from `fortitudo.tech` (https://github.com/fortitudo-tech/fortitudo.tech).
@@ -238,67 +239,101 @@ def entropy_pooling(
         strictly_positive=True,
     )
     p_col = normalised_prior.reshape(-1, 1)
+    num_scenarios = p_col.shape[0]
     b_col = np.asarray(b, dtype=float).reshape(-1, 1)
+    lhs = np.asarray(A, dtype=float).reshape(-1, num_scenarios)
 
     num_equalities = b_col.shape[0]
+    if lhs.shape[0] != num_equalities:
+        raise ValueError("`A` and `b` must describe the same number of constraints.")
 
     if G is None or h is None:
-        current_lhs = A
-        current_rhs_stacked = b_col
-        bounds_lower = [-np.inf] * num_equalities
-        bounds_upper = [np.inf] * num_equalities
+        rhs = b_col
     else:
-        h_col = h.reshape(-1, 1)
-        num_inequalities = h_col.shape[0]
-        current_lhs = np.vstack((A, G))
-        current_rhs_stacked = np.vstack((b_col, h_col))
-        bounds_lower = [-np.inf] * num_equalities + [0.0] * num_inequalities
-        bounds_upper = [np.inf] * (num_equalities + num_inequalities)
+        h_col = np.asarray(h, dtype=float).reshape(-1, 1)
+        G_mat = np.asarray(G, dtype=float).reshape(-1, num_scenarios)
+        if G_mat.shape[0] != h_col.shape[0]:
+            raise ValueError("`G` and `h` must describe the same number of constraints.")
+        lhs = np.vstack((lhs, G_mat))
+        rhs = np.vstack((b_col, h_col))
+    if not (np.all(np.isfinite(lhs)) and np.all(np.isfinite(rhs))):
+        raise ValueError("Entropy pooling constraints must be finite.")
+    is_equality = np.arange(lhs.shape[0]) < num_equalities
+
+    # Probabilities sum to one, so every row can be centred and scaled by its prior
+    # moments without changing the feasible set. The dual is then well conditioned
+    # whatever the units of the views.
+    row_mean = lhs @ p_col
+    centred = lhs - row_mean
+    row_std = np.sqrt((centred**2) @ p_col)
+    magnitude = np.max(np.abs(lhs), axis=1, initial=0.0).reshape(-1, 1)
+    varies = (row_std > 1e-12 * magnitude).ravel()
+
+    gap = (row_mean - rhs).ravel()[~varies]
+    gap = np.where(is_equality[~varies], np.abs(gap), gap)
+    if np.any(gap > 1e-8 * np.maximum(1.0, magnitude.ravel()[~varies])):
+        raise RuntimeError("Entropy pooling views are infeasible.")
+
+    scaled = centred[varies] / row_std[varies]
+    scaled_rhs = (rhs - row_mean)[varies] / row_std[varies]
+    is_equality = is_equality[varies]
+    current_lhs = np.vstack((np.ones((1, num_scenarios)), scaled))
+    current_rhs = np.concatenate(([1.0], scaled_rhs.ravel()))
 
     log_p_col = np.log(p_col)
 
+    # the multiplier of the normalisation row that reproduces the prior
     initial_lagrange_multipliers = np.zeros(current_lhs.shape[0])
-    optimizer_bounds = Bounds(bounds_lower, bounds_upper)
-
-    solver_options = {"maxfun": 10000}
-    if opt_method == "L-BFGS-B":
-        solver_options["maxiter"] = 1000
-
-    solution = minimize(
-        _entropy_pooling_dual_objective,
-        x0=initial_lagrange_multipliers,
-        args=(log_p_col, current_lhs, current_rhs_stacked.squeeze()),
-        method=opt_method,
-        jac=True,
-        bounds=optimizer_bounds,
-        options=solver_options,
+    initial_lagrange_multipliers[0] = -1.0
+    optimizer_bounds = Bounds(
+        np.concatenate(([-np.inf], np.where(is_equality, -np.inf, 0.0))), np.inf
     )
 
-    if not solution.success:
-        status = getattr(solution, "status", None)
-        message = getattr(solution, "message", "")
-        raise RuntimeError(
-            "Entropy pooling optimisation failed "
-            f"(status={status}): {message}"
+    solver_options = {
+        "TNC": {"maxfun": 10000, "ftol": 1e-16, "gtol": 1e-10, "xtol": 0.0},
+        "L-BFGS-B": {"maxfun": 10000, "maxiter": 5000, "ftol": 0.0, "gtol": 1e-8},
+    }
+    fallback = "L-BFGS-B" if opt_method == "TNC" else "TNC"
+
+    for attempt in (opt_method, fallback):
+        with np.errstate(over="ignore", invalid="ignore"):
+            solution = minimize(
+                _entropy_pooling_dual_objective,
+                x0=initial_lagrange_multipliers,
+                args=(log_p_col, current_lhs, current_rhs),
+                method=attempt,
+                jac=True,
+                bounds=optimizer_bounds,
+                options=solver_options[attempt],
+            )
+        lagrange_multipliers_col = solution.x[:, np.newaxis]
+
+        with np.errstate(over="ignore", under="ignore", invalid="ignore", divide="ignore"):
+            posterior_exponent = log_p_col - 1.0 - current_lhs.T @ lagrange_multipliers_col
+        posterior_exponent = np.clip(posterior_exponent, -700.0, 700.0)
+        q_posterior = np.exp(posterior_exponent)
+
+        total_prob = float(np.sum(q_posterior))
+        if not np.isfinite(total_prob) or total_prob <= 0.0:
+            continue
+        q_posterior /= total_prob
+
+        # The dual optimum meets the views and is complementary to the multipliers;
+        # the optimiser's own flag is not enough (an infeasible dual runs away).
+        residual = (scaled @ q_posterior).ravel() - scaled_rhs.ravel()
+        slack = np.where(
+            is_equality,
+            np.abs(residual),
+            np.where(solution.x[1:] > 1e-6, np.abs(residual), residual),
         )
+        if np.all(slack <= 1e-6):
+            return q_posterior
 
-    optimal_lagrange_multipliers_col = solution.x[:, np.newaxis]
-
-    with np.errstate(over="ignore", under="ignore", invalid="ignore", divide="ignore"):
-        posterior_exponent = log_p_col - 1.0 - current_lhs.T @ optimal_lagrange_multipliers_col
-    posterior_exponent = np.clip(posterior_exponent, -700.0, 700.0)
-    q_posterior = np.exp(posterior_exponent)
-
-    if not np.all(np.isfinite(q_posterior)):
-        raise RuntimeError("Entropy pooling produced non-finite posterior probabilities.")
-
-    q_posterior = np.clip(q_posterior, 0.0, None)
-    total_prob = float(np.sum(q_posterior))
-    if not np.isfinite(total_prob) or total_prob <= 0.0:
-        raise RuntimeError("Entropy pooling posterior probabilities could not be normalised.")
-    q_posterior /= total_prob
-
-    return q_posterior
+    raise RuntimeError(
+        "Entropy pooling optimisation failed "
+        f"(status={getattr(solution, 'status', None)}): "
+        f"{getattr(solution, 'message', '')}. The views may be infeasible."
+    )
 
 class FlexibleViewsProcessor:
     r"""Entropy-pooling engine with fully flexible moment views.
-- 
2.43.0


From 911f587861fbb622cfd43fbd1ffa024e28ae6803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:58 +0000
Subject: [PATCH 048/117] fix: flexible views work with a single risk driver

---
 pyvallocation/views.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 7f1d1c8..bab9b0e 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -604,7 +604,7 @@ class FlexibleViewsProcessor:
             self.p0 = np.full((S, 1), 1.0 / S)
 
         self.mu0 = (self.R.T @ self.p0).flatten()
-        self.cov0 = np.cov(self.R.T, aweights=self.p0.flatten(), bias=True)
+        self.cov0 = np.atleast_2d(np.cov(self.R.T, aweights=self.p0.flatten(), bias=True))
         self.var0 = np.diag(self.cov0)
 
         def _vec_to_dict(vec_like, name):
@@ -652,7 +652,7 @@ class FlexibleViewsProcessor:
 
         q = self.posterior_probabilities
         mu_post = (self.R.T @ q).flatten()
-        cov_post = np.cov(self.R.T, aweights=q.flatten(), bias=True)
+        cov_post = np.atleast_2d(np.cov(self.R.T, aweights=q.flatten(), bias=True))
 
         if self._use_pandas:
             self.posterior_returns = pd.Series(mu_post, index=self.assets)
-- 
2.43.0


From 526e4c8958101bb4f2b85a0ae907b149032033cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:32 +0000
Subject: [PATCH 049/117] fix: flexible views all hold together in the
 posterior and rankings leave the caller's views alone

---
 pyvallocation/views.py | 184 ++++++++++++++++++++++-------------------
 1 file changed, 97 insertions(+), 87 deletions(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index bab9b0e..93908de 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -637,14 +637,14 @@ class FlexibleViewsProcessor:
             self.cvar_views = None
         self.quantile_views = _vec_to_dict(quantile_views, "quantile_views") if quantile_views else {}
 
+        self.rank_views = {}
         # rank_mean: expand ["A", "B", "C"] into pairwise E[A] >= E[B], E[B] >= E[C]
         if rank_mean is not None:
             if len(rank_mean) < 2:
                 raise ValueError("`rank_mean` requires at least 2 assets.")
-            for i in range(len(rank_mean) - 1):
-                pair = (rank_mean[i], rank_mean[i + 1])
-                if pair not in self.mean_views:
-                    self.mean_views[pair] = (">=", 0.0)
+            self.rank_views = {
+                pair: (">=", 0.0) for pair in zip(rank_mean[:-1], rank_mean[1:])
+            }
 
         self.sequential = bool(sequential)
 
@@ -893,7 +893,7 @@ class FlexibleViewsProcessor:
         other_G: List[np.ndarray] = None,
         other_h: List[float] = None,
         max_newton_iter: int = 20,
-    ) -> np.ndarray:
+    ) -> Tuple[np.ndarray, List[np.ndarray], List[float]]:
         """Solve CVaR view via Meucci (2011) recursive EP (Eqs 9-15).
 
         For a view E[X | X <= VaR_gamma] = cvar_target, we search over
@@ -910,7 +910,8 @@ class FlexibleViewsProcessor:
             max_newton_iter: Maximum Newton-Raphson iterations.
 
         Returns:
-            np.ndarray: Posterior probability vector (S, 1).
+            tuple: Posterior probability vector (S, 1) and the tail constraints
+            (rows, targets) that pin the view down at the selected threshold.
         """
         R = self.R
         x = R[:, asset_idx]  # marginal scenarios for this asset
@@ -925,10 +926,14 @@ class FlexibleViewsProcessor:
         # Initialize s_bar from prior: find s where cumulative prob first reaches gamma
         cum_p = np.cumsum(p_sorted)
         s_bar = int(np.searchsorted(cum_p, gamma, side='left'))
-        s_bar = max(1, min(s_bar, S - 1))
+        # the tail can only average to the target if it reaches up to it
+        s_min = max(1, int(np.searchsorted(x_sorted, cvar_target, side='left')))
+        s_bar = max(s_min, min(s_bar, S - 2))
+        if s_bar > S - 2:
+            raise RuntimeError(f"CVaR view solve failed for asset {asset_idx}.")
 
-        def _solve_for_s(s):
-            """Solve EP with VaR at index s (Eq 9-10)."""
+        def _tail_constraints(s):
+            """Constraint rows and targets with VaR at index s (Eq 9-10)."""
             # Constraints: sum(q_1..q_s * x_1..x_s) = gamma * cvar_target
             #              sum(q_1..q_s) = gamma
             A_cvar = []
@@ -940,11 +945,25 @@ class FlexibleViewsProcessor:
             A_cvar.append(row_sum[np.argsort(order)])  # unsort back to original order
             b_cvar.append(gamma)
 
-            # Constraint 2: weighted tail mean = gamma * cvar_target
+            # Constraint 2: weighted tail mean = gamma * cvar_target, centred on the
+            # target so that it is not nearly collinear with constraint 1
             row_mean = np.zeros(S)
-            row_mean[:s + 1] = x_sorted[:s + 1]
+            row_mean[:s + 1] = x_sorted[:s + 1] - cvar_target
             A_cvar.append(row_mean[np.argsort(order)])  # unsort
-            b_cvar.append(gamma * cvar_target)
+            b_cvar.append(0.0)
+            return A_cvar, b_cvar
+
+        cache = {}
+
+        def _solve_for_s(s):
+            """Solve EP with VaR at index s, remembering earlier solves."""
+            if s not in cache:
+                cache[s] = _solve(s)
+            return cache[s]
+
+        def _solve(s):
+            """Posterior and relative entropy with VaR at index s."""
+            A_cvar, b_cvar = _tail_constraints(s)
 
             # Normalization: sum(q) = 1
             A_cvar.append(np.ones(S))
@@ -974,11 +993,10 @@ class FlexibleViewsProcessor:
 
         # Newton-Raphson search (Eqs 12-15)
         s = s_bar
-        best_q, best_kl = _solve_for_s(s)
 
         for _ in range(max_newton_iter):
             # Compute D(s) = E(s+1) - E(s) and D2(s) = D(s+1) - D(s)
-            s_lo = max(1, s - 1)
+            s_lo = max(s_min, s - 1)
             s_hi = min(S - 2, s + 1)
 
             _, kl_lo = _solve_for_s(s_lo)
@@ -996,20 +1014,25 @@ class FlexibleViewsProcessor:
                 break
 
             s_new = int(round(s - ratio))
-            s_new = max(1, min(s_new, S - 2))
+            s_new = max(s_min, min(s_new, S - 2))
 
             if s_new == s:
                 break
 
             s = s_new
-            q_new, kl_new = _solve_for_s(s)
-            if q_new is not None and kl_new < best_kl:
-                best_q, best_kl = q_new, kl_new
 
+        if all(q is None for q, _ in cache.values()):
+            # Newton never met a threshold compatible with the other views
+            for s in np.unique(np.linspace(s_min, S - 2, 200).astype(int)):
+                _solve_for_s(int(s))
+
+        best_s = min(cache, key=lambda s: cache[s][1])
+        best_q = cache[best_s][0]
         if best_q is None:
             raise RuntimeError(f"CVaR view solve failed for asset {asset_idx}.")
 
-        return best_q.reshape(-1, 1)
+        tail_rows, tail_targets = _tail_constraints(best_s)
+        return best_q.reshape(-1, 1), tail_rows, tail_targets
 
     def _compute_posterior_probabilities(self) -> np.ndarray:
         """
@@ -1030,90 +1053,69 @@ class FlexibleViewsProcessor:
         R, p0 = self.R, self.p0
         mu_cur, var_cur = self.mu0.copy(), self.var0.copy()
 
-        def do_ep(prior_probs, A_eq_list, b_eq_list, G_ineq_list, h_ineq_list):
-            """Solve entropy pooling for a given constraint set.
+        # Every constraint built so far: later views never release earlier ones.
+        A_all, b_all, G_all, h_all = [], [], [], []
 
-            Args:
-                prior_probs: Prior probability vector.
-                A_eq_list: Equality constraint rows.
-                b_eq_list: Equality constraint values.
-                G_ineq_list: Inequality constraint rows.
-                h_ineq_list: Inequality constraint values.
+        def extend(constraints):
+            """Add a block of constraints to the ones already in force."""
+            for total, block in zip((A_all, b_all, G_all, h_all), constraints):
+                total.extend(block)
+
+        def solve():
+            """Entropy pooling from the prior under all constraints in force.
 
             Returns:
                 np.ndarray: Posterior probability vector.
             """
-            S = R.shape[0]
-            A_eq_list.append(np.ones(S))
-            b_eq_list.append(1.0)
-
-            A = np.vstack(A_eq_list) if A_eq_list else np.zeros((0, S))
-            b = np.array(b_eq_list, float).reshape(-1, 1) if b_eq_list else np.zeros((0, 1))
+            A = np.vstack(A_all + [np.ones(R.shape[0])])
+            b = np.append(np.asarray(b_all, float), 1.0).reshape(-1, 1)
 
-            if G_ineq_list:
-                G = np.vstack(G_ineq_list)
-                h = np.array(h_ineq_list, float).reshape(-1, 1)
+            if G_all:
+                G = np.vstack(G_all)
+                h = np.array(h_all, float).reshape(-1, 1)
             else:
                 G, h = None, None
 
-            return entropy_pooling(prior_probs, A, b, G, h)
+            return entropy_pooling(p0, A, b, G, h)
 
-        has_any = any((self.mean_views, self.vol_views, self.var_views,
+        has_any = any((self.mean_views, self.rank_views, self.vol_views, self.var_views,
                        self.skew_views, self.corr_views, self.cvar_views,
                        self.quantile_views))
         if not has_any:
             return p0
 
+        for views in (self.mean_views, self.rank_views):
+            extend(self._build_constraints(views, "mean", mu_cur, var_cur))
+
+        higher_blocks = [
+            ("vol", self.vol_views),
+            ("var", self.var_views),
+            ("skew", self.skew_views),
+            ("corr", self.corr_views),
+        ]
+        q_result = p0
         if self.sequential:
-            q_result = p0
-            view_blocks = [
-                ("mean", self.mean_views),
-                ("vol", self.vol_views),
-                ("var", self.var_views),
-                ("skew", self.skew_views),
-                ("corr", self.corr_views),
-            ]
-
-            for mtype, vd in view_blocks:
+            for mtype, vd in higher_blocks:
                 if vd:
-                    Aeq, beq, G, h = self._build_constraints(vd, mtype, mu_cur, var_cur)
-                    q_result = do_ep(q_result, Aeq, beq, G, h)
-
-                    mu_cur = (R.T @ q_result).flatten()
-                    var_cur = ((R - mu_cur) ** 2).T @ q_result
-                    var_cur = var_cur.flatten()
-
+                    # linearise around the posterior of the earlier blocks
+                    if A_all or G_all:
+                        q_result = solve()
+                        mu_cur = (R.T @ q_result).flatten()
+                        var_cur = (((R - mu_cur) ** 2).T @ q_result).flatten()
+                    extend(self._build_constraints(vd, mtype, mu_cur, var_cur))
         else:
             # Two-pass when mean views coexist with higher-order views:
             # solve EP for means first to update the linearization point,
             # then build ALL constraints at the updated operating point.
-            has_higher = bool(self.vol_views or self.var_views or self.skew_views or self.corr_views)
-            if self.mean_views and has_higher:
-                Aeq_m, beq_m, Gm, hm = self._build_constraints(
-                    self.mean_views, "mean", mu_cur, var_cur)
-                q_mid = do_ep(p0, Aeq_m, beq_m, Gm, hm)
+            if (A_all or G_all) and any(vd for _, vd in higher_blocks):
+                q_mid = solve()
                 mu_cur = (R.T @ q_mid).flatten()
                 var_cur = (((R - mu_cur) ** 2).T @ q_mid).flatten()
-
-            A_all, b_all, G_all, h_all = [], [], [], []
-            for mtype, vd in [("mean", self.mean_views), ("vol", self.vol_views),
-                               ("var", self.var_views), ("skew", self.skew_views),
-                               ("corr", self.corr_views)]:
-                if vd:
-                    Aeq, beq, G, h = self._build_constraints(vd, mtype, mu_cur, var_cur)
-                    A_all.extend(Aeq)
-                    b_all.extend(beq)
-                    G_all.extend(G)
-                    h_all.extend(h)
-
-            if A_all or G_all:
-                q_result = do_ep(p0, A_all, b_all, G_all, h_all)
-            else:
-                q_result = p0
+            for mtype, vd in higher_blocks:
+                extend(self._build_constraints(vd, mtype, mu_cur, var_cur))
 
         # --- Quantile (VaR) views: P(R_i <= level) {op} probability ---
         if self.quantile_views:
-            A_q, b_q, G_q, h_q = [], [], [], []
             for asset, spec in self.quantile_views.items():
                 idx = self._asset_idx(asset)
                 if isinstance(spec, (list, tuple)) and len(spec) == 2:
@@ -1128,16 +1130,17 @@ class FlexibleViewsProcessor:
                     if not 0.0 < prob < 1.0:
                         raise ValueError(f"Quantile probability for '{asset}' must be in (0, 1), got {prob}.")
                     if op == "==":
-                        A_q.append(indicator)
-                        b_q.append(prob)
+                        A_all.append(indicator)
+                        b_all.append(prob)
                     elif op in ("<=", "<"):
-                        G_q.append(indicator)
-                        h_q.append(prob)
+                        G_all.append(indicator)
+                        h_all.append(prob)
                     else:  # >= or >
-                        G_q.append(-indicator)
-                        h_q.append(-prob)
-            if A_q or G_q:
-                q_result = do_ep(q_result, A_q, b_q, G_q, h_q)
+                        G_all.append(-indicator)
+                        h_all.append(-prob)
+
+        if A_all or G_all:
+            q_result = solve()
 
         # --- CVaR views (recursive EP, Meucci 2011 ssrn-1542083) ---
         if self.cvar_views:
@@ -1149,10 +1152,17 @@ class FlexibleViewsProcessor:
                 else:
                     cvar_target = float(vw)
                     gamma = 0.05
-                q_result = self._solve_cvar_view(
+                if not (np.isfinite(cvar_target) and 0.0 < gamma < 1.0):
+                    raise ValueError(
+                        f"cvar_views['{asset_key}'] needs a finite target and a tail "
+                        f"probability in (0, 1), got {vw}."
+                    )
+                q_result, tail_rows, tail_targets = self._solve_cvar_view(
                     asset_idx=idx, gamma=gamma, cvar_target=cvar_target,
-                    prior_probs=q_result,
+                    prior_probs=p0,
+                    other_A=A_all, other_b=b_all, other_G=G_all, other_h=h_all,
                 )
+                extend((tail_rows, tail_targets, [], []))
 
         return q_result
 
-- 
2.43.0


From 9883c6e19582671119ef9e1a8da3e8b07dc2d32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:35 +0000
Subject: [PATCH 050/117] fix: flexible views align the prior covariance with
 the prior mean by label

---
 pyvallocation/views.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 93908de..c482afe 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -563,10 +563,14 @@ class FlexibleViewsProcessor:
                 self._use_pandas = False
 
             if isinstance(prior_cov, pd.DataFrame):
-                cov = prior_cov.values.astype(float)
                 if not self._use_pandas:
                     self.assets = list(prior_cov.index)
                     self._use_pandas = True
+                elif set(prior_cov.index) != set(self.assets) or set(
+                    prior_cov.columns
+                ) != set(self.assets):
+                    raise ValueError("`prior_mean` and `prior_cov` must share the same labels.")
+                cov = prior_cov.reindex(index=self.assets, columns=self.assets).values.astype(float)
             else:
                 cov = np.asarray(prior_cov, float)
 
-- 
2.43.0


From 8ef8f928515b66b7a0537f549e7bf826354bc86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:24 +0000
Subject: [PATCH 051/117] fix: Normal-inverse-Wishart updates no longer
 truncate fractional pseudo-counts

---
 pyvallocation/bayesian.py | 10 +++++-----
 pyvallocation/moments.py  | 12 ++++++------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/pyvallocation/bayesian.py b/pyvallocation/bayesian.py
index 392d28e..ea3b23a 100644
--- a/pyvallocation/bayesian.py
+++ b/pyvallocation/bayesian.py
@@ -285,8 +285,8 @@ class NIWPosterior:
 
         _ = _cholesky_pd(self.prior_sigma)  # Ensure prior_sigma is PD or near-PD
 
-        self.t0: int = int(t0)
-        self.nu0: int = int(nu0)
+        self.t0: float = t0
+        self.nu0: float = nu0
         self._posterior: Optional[NIWParams] = None
 
     @property
@@ -633,10 +633,10 @@ class RobustBayesPosterior:
         niw = NIWPosterior(
             prior_mu=prior_mu,
             prior_sigma=prior_sigma,
-            t0=int(t0),
-            nu0=int(nu0),
+            t0=t0,
+            nu0=nu0,
         )
-        niw.update(sample_mu=sample_mu, sample_sigma=sample_sigma, n_obs=int(n_obs))
+        niw.update(sample_mu=sample_mu, sample_sigma=sample_sigma, n_obs=n_obs)
         return cls(
             mu=niw.get_mu_ce(),
             sigma=niw.get_sigma_ce(),
diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index 2503484..9c7df32 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -1147,13 +1147,13 @@ def posterior_moments_niw(
     niw = NIWPosterior(
         prior_mu=prior_mu,
         prior_sigma=prior_sigma,
-        t0=int(t0),
-        nu0=int(nu0),
+        t0=t0,
+        nu0=nu0,
     )
     niw.update(
         sample_mu=sample_mu,
         sample_sigma=sample_sigma,
-        n_obs=int(n_obs),
+        n_obs=n_obs,
     )
     return niw.get_mu_ce(), niw.get_sigma_ce()
 
@@ -1182,13 +1182,13 @@ def posterior_moments_niw_with_uncertainty(
     niw = NIWPosterior(
         prior_mu=prior_mu,
         prior_sigma=prior_sigma,
-        t0=int(t0),
-        nu0=int(nu0),
+        t0=t0,
+        nu0=nu0,
     )
     niw.update(
         sample_mu=sample_mu,
         sample_sigma=sample_sigma,
-        n_obs=int(n_obs),
+        n_obs=n_obs,
     )
     return niw.get_mu_ce(), niw.get_sigma_ce(), niw.get_S_mu()
 
-- 
2.43.0


From 68cedb296ef5236a62510d305c4a862e0ccf3827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:24 +0000
Subject: [PATCH 052/117] fix: Normal-inverse-Wishart updates align labelled
 samples with the prior

---
 pyvallocation/bayesian.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pyvallocation/bayesian.py b/pyvallocation/bayesian.py
index ea3b23a..57d2f20 100644
--- a/pyvallocation/bayesian.py
+++ b/pyvallocation/bayesian.py
@@ -352,6 +352,10 @@ class NIWPosterior:
 
         # Convert pandas inputs if present
         if isinstance(sample_mu, pd.Series):
+            if self._asset_index is not None:
+                if set(sample_mu.index) != set(self._asset_index):
+                    raise ValueError("`sample_mu` must carry the same labels as the prior.")
+                sample_mu = sample_mu.reindex(self._asset_index)
             smu = sample_mu.values.astype(float)
         else:
             smu = np.asarray(sample_mu, dtype=float)
@@ -363,6 +367,13 @@ class NIWPosterior:
             raise ValueError("`n_obs` (number of observations) must be strictly positive.")
 
         if isinstance(sample_sigma, pd.DataFrame):
+            if self._asset_index is not None:
+                labels = set(self._asset_index)
+                if set(sample_sigma.index) != labels or set(sample_sigma.columns) != labels:
+                    raise ValueError("`sample_sigma` must carry the same labels as the prior.")
+                sample_sigma = sample_sigma.reindex(
+                    index=self._asset_index, columns=self._asset_index
+                )
             ssigma = sample_sigma.values.astype(float)
         else:
             ssigma = np.asarray(sample_sigma, dtype=float)
-- 
2.43.0


From 1299248d057361facefd08baa444168caa374cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:24 +0000
Subject: [PATCH 053/117] fix: exact mean-uncertainty transform scales the
 covariance linearly with the horizon

---
 pyvallocation/bayesian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/bayesian.py b/pyvallocation/bayesian.py
index 57d2f20..5ea1b4f 100644
--- a/pyvallocation/bayesian.py
+++ b/pyvallocation/bayesian.py
@@ -769,7 +769,7 @@ class RobustBayesPosterior:
         mu_log = mu_np * annualization_factor
         s_mu_log = s_mu_np * (annualization_factor ** 2)
         if exact:
-            sigma_log = sigma_np * (annualization_factor ** 2)
+            sigma_log = sigma_np * annualization_factor
             scale = np.exp(mu_log + 0.5 * np.diag(sigma_log))
         else:
             scale = np.exp(mu_log)
-- 
2.43.0


From 25a43e4ff39751d813ed3934fd8cd20a75cf959a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:24 +0000
Subject: [PATCH 054/117] fix: Black-Litterman leaves the caller's market
 weights alone

---
 pyvallocation/views.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index c482afe..d22dd70 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -1395,7 +1395,7 @@ class BlackLittermanProcessor:
             weights = np.asarray(market_weights, dtype=float).ravel()
             if weights.size != n_assets:
                 raise ValueError("market_weights length mismatch.")
-            weights /= weights.sum()
+            weights = weights / weights.sum()
             self._pi = risk_aversion * self._sigma @ weights.reshape(-1, 1)
             src = "\\delta \\Sigma w"
         elif prior_mean is not None:
-- 
2.43.0


From 1953251f4190a84285505db61d96b5b8de2112e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:24 +0000
Subject: [PATCH 055/117] fix: view processors match labelled priors, weights
 and views to assets by label

---
 pyvallocation/views.py | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index d22dd70..dc972f2 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -625,6 +625,11 @@ class FlexibleViewsProcessor:
                 return {}
             if isinstance(vec_like, dict):
                 return vec_like
+            if self._use_pandas and isinstance(vec_like, pd.Series):
+                if set(vec_like.index) <= set(self.assets) or not isinstance(
+                    vec_like.index, pd.RangeIndex
+                ):
+                    return vec_like.to_dict()
             vec = np.asarray(vec_like, float).ravel()
             if vec.size != len(self.assets):
                 raise ValueError(f"`{name}` must have length {len(self.assets)} matching the number of assets.")
@@ -1375,9 +1380,25 @@ class BlackLittermanProcessor:
             if self._is_pandas
             else list(range(np.asarray(prior_cov).shape[0]))
         )
+        if self._is_pandas:
+            if set(prior_cov.columns) != set(self._assets):
+                raise ValueError("prior_cov must carry the same labels on both axes.")
+            prior_cov = prior_cov[self._assets]
         self._sigma: np.ndarray = np.asarray(prior_cov, dtype=float)
         n_assets: int = self._sigma.shape[0]
 
+        def _aligned(vec, name):
+            """Flatten a per-asset vector, matching labels to the prior covariance."""
+            if self._is_pandas and isinstance(vec, pd.Series):
+                if set(vec.index) == set(self._assets):
+                    vec = vec.reindex(self._assets)
+                elif not isinstance(vec.index, pd.RangeIndex):
+                    raise ValueError(f"{name} must carry the same labels as prior_cov.")
+            arr = np.asarray(vec, dtype=float).ravel()
+            if arr.size != n_assets:
+                raise ValueError(f"{name} length mismatch.")
+            return arr
+
         if self._sigma.shape != (n_assets, n_assets):
             raise ValueError("prior_cov must be square (N, N).")
         if not np.allclose(self._sigma, self._sigma.T, atol=1e-8):
@@ -1389,17 +1410,15 @@ class BlackLittermanProcessor:
         self._tau: float = float(tau)
 
         if pi is not None:
-            self._pi = np.asarray(pi, dtype=float).reshape(-1, 1)
+            self._pi = _aligned(pi, "pi").reshape(-1, 1)
             src = "user \\pi"
         elif market_weights is not None:
-            weights = np.asarray(market_weights, dtype=float).ravel()
-            if weights.size != n_assets:
-                raise ValueError("market_weights length mismatch.")
+            weights = _aligned(market_weights, "market_weights")
             weights = weights / weights.sum()
             self._pi = risk_aversion * self._sigma @ weights.reshape(-1, 1)
             src = "\\delta \\Sigma w"
         elif prior_mean is not None:
-            self._pi = np.asarray(prior_mean, dtype=float).reshape(-1, 1)
+            self._pi = _aligned(prior_mean, "prior_mean").reshape(-1, 1)
             src = "prior_mean"
         else:
             raise ValueError("Provide exactly one of pi, market_weights or prior_mean.")
@@ -1419,6 +1438,11 @@ class BlackLittermanProcessor:
                 return {}
             if isinstance(vec_like, dict):
                 return vec_like
+            if self._is_pandas and isinstance(vec_like, pd.Series):
+                if set(vec_like.index) <= set(self._assets) or not isinstance(
+                    vec_like.index, pd.RangeIndex
+                ):
+                    return vec_like.to_dict()
             vec = np.asarray(vec_like, float).ravel()
             if vec.size != n_assets:
                 raise ValueError(f"`mean_views` must have length {n_assets}.")
@@ -1546,6 +1570,8 @@ class BlackLittermanProcessor:
                     )
                 result.append(float(conf.get(k, 1.0)))
             return np.array(result)
+        if isinstance(conf, pd.Series) and set(conf.index) == set(keys):
+            return np.array([float(conf[k]) for k in keys])
         arr = np.asarray(conf, dtype=float).ravel()
         if arr.size != len(keys):
             raise ValueError("view_confidences length mismatch.")
-- 
2.43.0


From b802a42a2d581b380e5f3823ef85a6e8b74311f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:44 +0000
Subject: [PATCH 056/117] fix: sample moments take asset labels from the
 scenarios, never from the probabilities

---
 pyvallocation/moments.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index 9c7df32..c3a6948 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -203,9 +203,9 @@ def estimate_sample_moments(R: ArrayLike, p: ArrayLike) -> Tuple[ArrayLike, Arra
     Returns:
         Tuple[ArrayLike, ArrayLike]: A tuple containing:
             -   **mu** (ArrayLike): The weighted mean vector of asset returns.
-                If `R` or `p` were pandas objects, `mu` will be a :class:`pandas.Series`.
+                If `R` was a pandas object, `mu` will be a :class:`pandas.Series`.
             -   **S** (ArrayLike): The weighted covariance matrix of asset returns.
-                If `R` or `p` were pandas objects, `S` will be a :class:`pandas.DataFrame`.
+                If `R` was a pandas object, `S` will be a :class:`pandas.DataFrame`.
 
     Raises:
         ValueError: If `p` has a length mismatch with `R`, or if `p` contains
@@ -231,7 +231,7 @@ def estimate_sample_moments(R: ArrayLike, p: ArrayLike) -> Tuple[ArrayLike, Arra
     S = np.einsum('ti,tj,t->ij', X, X, p_arr, optimize=True)
     S = (S + S.T) / 2
 
-    labels = _labels(R, p)
+    labels = _labels(R)
     logger.debug("Estimated weighted mean and covariance matrix.")
     return _wrap(mu, labels, True), _wrap(S, labels, False)
 
-- 
2.43.0


From 3ba5d647c017ccfd35a0f234596c5846537ef1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:47 +0000
Subject: [PATCH 057/117] fix: Ledoit-Wolf intensity follows the published
 formulas (identity target never shrank)

---
 pyvallocation/moments.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index c3a6948..dd82f2c 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -330,7 +330,7 @@ def shrink_covariance_ledoit_wolf(
         The function calculates various components of the Ledoit-Wolf formula:
 
         *   `F`: The target matrix.
-        *   `pi_mat`, `pi_hat`, `diag_pi`, `off_pi`, `rho_hat`: Components related
+        *   `pi_mat`, `pi_hat`, `diag_pi`, `rho_hat`: Components related
             to the estimation of the optimal shrinkage intensity.
         *   `gamma_hat`: The squared Frobenius norm of the difference between
             the sample covariance and the target matrix.
@@ -358,7 +358,7 @@ def shrink_covariance_ledoit_wolf(
     elif target == "constant_correlation":
         std = np.sqrt(np.diag(S_arr))
         corr = S_arr / np.outer(std, std)
-        r_bar = (corr.sum() - N) / (N * (N - 1))
+        r_bar = (corr.sum() - N) / (N * (N - 1)) if N > 1 else 0.0
         F = r_bar * np.outer(std, std)
         np.fill_diagonal(F, np.diag(S_arr))
     else:
@@ -367,21 +367,22 @@ def shrink_covariance_ledoit_wolf(
 
     M = X[:, :, None] * X[:, None, :]
     pi_mat = np.mean((M - S_arr) ** 2, axis=0)
-    pi_hat = np.mean(pi_mat)
+    pi_hat = pi_mat.sum()
     diag_pi = np.trace(pi_mat)
-    off_pi = pi_hat - diag_pi
 
     if target == "identity":
-        rho_hat = diag_pi
+        # Ledoit-Wolf (2004, Section 3.3): b^2 / d^2 = (pi_hat / T) / gamma_hat.
+        rho_hat = 0.0
     else:
-        rho_hat = diag_pi + ((F - np.diag(np.diag(F))).sum() / (N * (N - 1))) * off_pi
+        # Ledoit-Wolf (2003, Appendix B): asymptotic covariance of target and sample.
+        theta = np.mean((X**2 - np.diag(S_arr))[:, :, None] * (M - S_arr), axis=0)
+        rho_mat = r_bar * (std[None, :] / std[:, None]) * theta
+        rho_hat = diag_pi + rho_mat.sum() - np.trace(rho_mat)
 
     gamma_hat = np.linalg.norm(S_arr - F, "fro") ** 2
-    kappa = (pi_hat - rho_hat) / gamma_hat
-    # For identity target: delta = kappa (Ledoit-Wolf 2004, Eq. 2).
-    # For constant_correlation target: delta = kappa / T (variant that accounts
-    # for the larger number of estimated parameters in the structured target).
-    delta = float(np.clip(kappa if target == "identity" else kappa / T, 0.0, 1.0))
+    # the sample covariance coincides with the target: any intensity gives the same matrix
+    kappa = (pi_hat - rho_hat) / gamma_hat if gamma_hat > 0.0 else 0.0
+    delta = float(np.clip(kappa / T, 0.0, 1.0))
 
     Sigma = ensure_psd_matrix(delta * F + (1 - delta) * S_arr)
     Sigma = (Sigma + Sigma.T) / 2
-- 
2.43.0


From 088589318f9adc93bd0dd0f5c3966f54631a8026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:51 +0000
Subject: [PATCH 058/117] fix: moment estimators accept a single asset

---
 pyvallocation/moments.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index dd82f2c..9e6acd7 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -520,7 +520,7 @@ def factor_covariance_poet(
     else:
         scale = np.ones(N, dtype=float)
     X_scaled = X_centered / scale
-    S_scaled = np.cov(X_scaled, rowvar=False, ddof=1)
+    S_scaled = np.atleast_2d(np.cov(X_scaled, rowvar=False, ddof=1))
     eigvals, eigvecs = np.linalg.eigh(S_scaled)
     order = np.argsort(eigvals)[::-1]
     eigvals = eigvals[order]
@@ -651,7 +651,7 @@ def robust_covariance_tyler(
         raise ValueError("`shrinkage` must lie in [0, 1].")
 
     X = X - X.mean(axis=0, keepdims=True)
-    sample_cov = np.cov(X, rowvar=False, ddof=1)
+    sample_cov = np.atleast_2d(np.cov(X, rowvar=False, ddof=1))
     sample_cov = ensure_psd_matrix(sample_cov)
     trace_target = np.trace(sample_cov) / max(N, 1)
     if trace_target <= 0.0:
@@ -1227,7 +1227,7 @@ def estimate_moments(
     if p is None:
         mu_sample = X.mean(axis=0)
         # Use ddof=0 (MLE) for consistency with estimate_sample_moments
-        S_sample = np.cov(X, rowvar=False, ddof=0)
+        S_sample = np.atleast_2d(np.cov(X, rowvar=False, ddof=0))
         mu_sample_wrapped = _wrap(mu_sample, labels, True)
         S_sample_wrapped = _wrap(S_sample, labels, False)
     else:
-- 
2.43.0


From 28464425476067782e2e82cb75a9f468111b55aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:55 +0000
Subject: [PATCH 059/117] fix: James-Stein mean never extrapolates past the
 sample mean for fewer than two assets

---
 pyvallocation/moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index 9e6acd7..f063655 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -976,7 +976,7 @@ def shrink_mean_james_stein(
     if quad <= 0.0:
         shrink = 0.0
     else:
-        shrink = max(0.0, 1.0 - (N - 2.0) / quad)
+        shrink = max(0.0, 1.0 - max(N - 2.0, 0.0) / quad)
     mu_js = mu_target + shrink * diff
     return _wrap(mu_js, _labels(mu_hat, S), True)
 
-- 
2.43.0


From fadee870489affbafa6b40ef547cecc9ae9896a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:59 +0000
Subject: [PATCH 060/117] fix: Tyler covariance is scale-equivariant and keeps
 the sample trace

---
 pyvallocation/moments.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index f063655..837e9b0 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -656,6 +656,7 @@ def robust_covariance_tyler(
     trace_target = np.trace(sample_cov) / max(N, 1)
     if trace_target <= 0.0:
         trace_target = 1.0
+    X = X / np.sqrt(trace_target)  # unit average variance: the clipping levels below are relative
     if isinstance(target, str):
         if target != "identity":
             raise ValueError("`target` must be 'identity' or an array-like.")
@@ -703,7 +704,7 @@ def robust_covariance_tyler(
             max_iter, delta / denom, tol,
         )
 
-    covariance *= trace_target / N
+    covariance *= trace_target  # trace N -> trace of the sample covariance
     covariance = 0.5 * (covariance + covariance.T)
     if ensure_psd:
         covariance = ensure_psd_matrix(covariance)
-- 
2.43.0


From 1184e12d90ba6b682ef6ca13e3010e15290be44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:03 +0000
Subject: [PATCH 061/117] fix: POET selects the number of factors at the
 largest eigenvalue gap

---
 pyvallocation/moments.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index 837e9b0..974db79 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -531,9 +531,8 @@ def factor_covariance_poet(
         elif eigvals.size == 2:
             k_sel = 1
         else:
-            diffs = np.diff(eigvals)
-            accel = diffs[:-1] - diffs[1:]
-            k_sel = int(np.argmax(accel) + 1)
+            gaps = eigvals[:-1] - eigvals[1:]
+            k_sel = int(np.argmax(gaps) + 1)
     else:
         if k <= 0:
             raise ValueError("`k` must be positive when provided as an integer.")
-- 
2.43.0


From 54e34c25a567e1c7d34b2608183619333c328682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:06 +0000
Subject: [PATCH 062/117] fix: Huber mean converges relative to the scale of
 the data

---
 pyvallocation/moments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index 974db79..e35c32a 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -993,7 +993,7 @@ def robust_mean_huber(
     Args:
         R: Scenario matrix with shape ``(T, N)``.
         allow_vectorized: Must be ``True`` (scalar mode not implemented).
-        tol: Relative convergence tolerance.
+        tol: Convergence tolerance relative to the scale of the data.
         max_iter: Maximum number of iterations per asset.
 
     Returns:
@@ -1019,7 +1019,7 @@ def robust_mean_huber(
             denom = np.maximum(np.abs(residuals), 1e-12)
             weights = np.minimum(1.0, tau / denom)
             mu_new = np.sum(weights * x) / np.sum(weights)
-            if abs(mu_new - mu) <= tol * (abs(mu) + 1.0):
+            if abs(mu_new - mu) <= tol * scale:
                 mu = float(mu_new)
                 break
             mu = float(mu_new)
-- 
2.43.0


From ba0f0059b52b85142fc184d6cd4535710f2c8c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:10 +0000
Subject: [PATCH 063/117] fix: EWMA covariance rejects spans below one
 (negative decay factor)

---
 pyvallocation/moments.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index e35c32a..4154c9a 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -745,6 +745,8 @@ def covariance_ewma(
     T, N = X.shape
     if T < min_periods:
         raise ValueError(f"Need at least {min_periods} observations, got {T}.")
+    if not span >= 1:
+        raise ValueError("`span` must be at least 1.")
 
     lam = 1.0 - 2.0 / (span + 1)
 
-- 
2.43.0


From ec7de1113f3c199c432221c5d22b36d9a34ed60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:08 +0000
Subject: [PATCH 064/117] fix: graphical lasso converges for returns of any
 scale

---
 pyvallocation/moments.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index 4154c9a..a41673b 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -781,15 +781,19 @@ def _graphical_lasso_admm(
     alpha: float,
     *,
     rho: float = 1.0,
-    max_iter: int = 200,
-    tol: float = 1e-4,
+    max_iter: int = 10_000,
+    tol: float = 1e-5,
 ) -> Tuple[np.ndarray, np.ndarray, int]:
     """Solve the graphical lasso via ADMM.
 
+    The problem is solved for unit average variance with residual balancing
+    (Boyd et al., 2011, Section 3.4.1), so convergence does not depend on the
+    units of the returns.
+
     Args:
         emp_cov: Empirical covariance matrix.
         alpha: L1 penalty parameter.
-        rho: ADMM penalty parameter.
+        rho: Initial ADMM penalty parameter.
         max_iter: Maximum number of iterations.
         tol: Convergence tolerance.
 
@@ -797,6 +801,10 @@ def _graphical_lasso_admm(
         Tuple[np.ndarray, np.ndarray, int]: Covariance, precision, and iteration count.
     """
     p = emp_cov.shape[0]
+    unit = float(np.trace(emp_cov)) / p
+    if not unit > 0.0:
+        unit = 1.0
+    emp_cov, alpha = emp_cov / unit, alpha / unit
     Theta = np.linalg.inv(emp_cov + alpha * np.eye(p))
     Z = Theta.copy()
     U = np.zeros_like(emp_cov)
@@ -825,11 +833,15 @@ def _graphical_lasso_admm(
         eps_dual = tol * np.sqrt(p) + tol * np.linalg.norm(rho * U, ord="fro")
         if r_norm <= eps_pri and s_norm <= eps_dual:
             break
+        if r_norm * eps_dual > 5.0 * s_norm * eps_pri:
+            rho, U = 2.0 * rho, 0.5 * U
+        elif s_norm * eps_pri > 5.0 * r_norm * eps_dual:
+            rho, U = 0.5 * rho, 2.0 * U
 
     else:
         raise RuntimeError("Graphical lasso did not converge within max_iter.")
 
-    precision = Theta
+    precision = Theta / unit
     try:
         covariance = np.linalg.inv(precision)
     except np.linalg.LinAlgError:
@@ -887,7 +899,7 @@ def sparse_precision_glasso(
     if alpha == "auto":
         S = emp_cov.copy()
         max_offdiag = np.max(np.abs(S - np.diag(np.diag(S))))
-        alpha_max = max(max_offdiag, 1e-6)
+        alpha_max = max(max_offdiag, 1e-6 * float(np.trace(S)) / S.shape[0])
         alphas = np.geomspace(alpha_max, alpha_max / 100.0, num=5)
         best_alpha = alphas[-1]
         best_score = -np.inf
-- 
2.43.0


From 87aec7de3d3c2a5e6c18dc45e179760a44ad37c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:12 +0000
Subject: [PATCH 065/117] fix: labelled shrinkage targets are matched to assets
 by label

---
 pyvallocation/moments.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index a41673b..0b64403 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -661,6 +661,10 @@ def robust_covariance_tyler(
             raise ValueError("`target` must be 'identity' or an array-like.")
         target_matrix = np.eye(N)
     else:
+        if isinstance(target, pd.DataFrame) and isinstance(R, pd.DataFrame):
+            if set(target.index) != set(R.columns) or set(target.columns) != set(R.columns):
+                raise ValueError("`target` must carry the same labels as `R`.")
+            target = target.loc[R.columns, R.columns]
         target_matrix = np.asarray(target, dtype=float)
         if target_matrix.shape != (N, N):
             raise ValueError("Custom target must have shape (N, N).")
@@ -978,6 +982,10 @@ def shrink_mean_james_stein(
             raise ValueError("`target` must be 'grand_mean' or an array-like.")
         mu_target = np.full_like(mu_arr, mu_arr.mean())
     else:
+        if isinstance(target, pd.Series) and isinstance(mu_hat, pd.Series):
+            if set(target.index) != set(mu_hat.index):
+                raise ValueError("`target` must carry the same labels as `mu_hat`.")
+            target = target.loc[mu_hat.index]
         mu_target = np.asarray(target, dtype=float).reshape(-1)
         if mu_target.size != N:
             raise ValueError("Custom target must have length N.")
-- 
2.43.0


From ebb84c7b766b4554249c5c6e3b353a708317a022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:40 +0000
Subject: [PATCH 066/117] fix: variance optimisation survives nearly tied
 maximum returns

---
 pyvallocation/optimization.py | 44 ++++++++++++++++++++++++++++++++---
 1 file changed, 41 insertions(+), 3 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index c199aaa..b13e1d1 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -397,6 +397,31 @@ class MeanVariance(_FrontierMixin, _BaseOptimization):
         self._P, self._q = matrix(P), matrix(q)
         self._finalise_expected_row(0)
 
+    def _best_attempt(self, attempts: list, return_target: float | None) -> dict:
+        """
+        Pick the answer when no QP attempt terminated normally.
+
+        Nearly tied returns next to the target make the multipliers, and with them the
+        absolute dual residual CVXOPT tests, large. A feasible iterate whose relative gap and
+        residual certify its objective is accepted. At the maximum return itself the feasible
+        set has no interior and the return maximiser is the solution.
+        """
+        scale = max(1.0, np.linalg.norm(np.asarray(self._q)))
+
+        def suboptimality(sol: dict) -> float:
+            if sol["x"] is None or sol["relative gap"] is None or not sol["primal infeasibility"] <= 1e-8:
+                return np.inf
+            return 1e2 * sol["relative gap"] + scale * sol["dual infeasibility"] / max(abs(sol["primal objective"]), 1e-12)
+
+        best = min(attempts, key=suboptimality)
+        if suboptimality(best) <= 1e-3:
+            return {**best, "status": "optimal"}
+        if return_target is not None:
+            top = solvers.lp(self._expected_row.T, self._G, self._h, self._A, self._b, solver="glpk")
+            if top["status"] == "optimal" and np.isclose(-top["primal objective"], return_target, rtol=1e-9, atol=1e-12):
+                return top
+        return attempts[0]
+
     # ---------------------------------------------------------------- #
     # core solver
     # ---------------------------------------------------------------- #
@@ -415,20 +440,33 @@ class MeanVariance(_FrontierMixin, _BaseOptimization):
             h = matrix([-return_target]) if h is None else matrix(
                 np.append(np.asarray(h).ravel(), -return_target)
             )
-        sol = solvers.qp(self._P, self._q, G, h, self._A, self._b)
+        try:
+            sol = solvers.qp(self._P, self._q, G, h, self._A, self._b)
+        except (ArithmeticError, ValueError) as exc:
+            if "domain error" not in str(exc) and not isinstance(exc, ArithmeticError):
+                raise
+            sol = {"status": "unknown", "x": None}  # numerical breakdown inside CVXOPT
         if sol["status"] != "optimal":  # scale-adaptive ridge regularisation fallback
             P_np, q_np = np.asarray(self._P), np.asarray(self._q).ravel()
             mean_diag = np.trace(P_np) / max(self._I, 1)
             ridge = max(1e-8, 1e-8 * mean_diag)
             P_reg = P_np + np.eye(self._I) * ridge
+            attempts = [sol]
             # the interior-point method can stall on a badly scaled objective: rescale and retry
             for scale in (1.0, 1e-2 * mean_diag, 1e-4 * mean_diag, mean_diag):
                 if not scale > 0.0:
                     continue
                 _LOGGER.debug("QP retry with ridge=%.2e, objective scale=%.2e", ridge, scale)
-                sol = solvers.qp(matrix(P_reg / scale), matrix(q_np / scale), G, h, self._A, self._b)
-                if sol["status"] == "optimal":
+                try:
+                    retry = solvers.qp(matrix(P_reg / scale), matrix(q_np / scale), G, h, self._A, self._b)
+                except (ArithmeticError, ValueError):  # numerical breakdown inside CVXOPT
+                    continue
+                if retry["status"] == "optimal":
+                    sol = retry
                     break
+                attempts.append(retry)
+            else:
+                sol = self._best_attempt(attempts, return_target)
         self._assert_optimal(sol, "QP")
         return np.asarray(sol["x"]).ravel()
 
-- 
2.43.0


From fd726e223af97ec440ec95db25e8ba707cd54259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:24 +0000
Subject: [PATCH 067/117] fix: nonlinear shrinkage with a degrees-of-freedom
 correction removes the sample means

---
 pyvallocation/moments.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index 0b64403..cf364dc 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -473,6 +473,8 @@ def shrink_covariance_nls(
     if X.ndim != 2:
         raise ValueError("Input must be two-dimensional with shape (T, N).")
     k_arg: Optional[int] = None if dof_correction == 0 else int(dof_correction)
+    if k_arg is not None:  # with an explicit correction the package expects demeaned data
+        X = X - X.mean(axis=0)
     with warnings.catch_warnings():
         warnings.filterwarnings(
             "ignore",
-- 
2.43.0


From 35d42869447142cdde5c5dfbb9c7ee5a35d162d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:08 +0000
Subject: [PATCH 068/117] fix: PSD check and repair allow for rounding of
 large-valued covariances

---
 pyvallocation/utils/validation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/utils/validation.py b/pyvallocation/utils/validation.py
index af2289c..0cd2689 100644
--- a/pyvallocation/utils/validation.py
+++ b/pyvallocation/utils/validation.py
@@ -22,7 +22,9 @@ def is_psd(matrix: np.ndarray, tolerance: float = 1e-8) -> bool:
         return False
     try:
         eigenvalues = la.eigvalsh(matrix)
-        return np.all(eigenvalues >= -tolerance)
+        # eigenvalues of large-valued matrices are only known up to rounding
+        rounding = 8.0 * matrix.shape[0] * np.finfo(float).eps * np.max(np.abs(matrix), initial=0.0)
+        return np.all(eigenvalues >= -max(tolerance, rounding))
     except la.LinAlgError:
         return False
 
-- 
2.43.0


From 49bcec74195510be0b4af6b9e4f6085444d97876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:28 +0000
Subject: [PATCH 069/117] fix: a matrix with infinite entries is never positive
 semi-definite

---
 pyvallocation/utils/validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/utils/validation.py b/pyvallocation/utils/validation.py
index 0cd2689..8c057a5 100644
--- a/pyvallocation/utils/validation.py
+++ b/pyvallocation/utils/validation.py
@@ -18,7 +18,7 @@ def is_psd(matrix: np.ndarray, tolerance: float = 1e-8) -> bool:
     """
     if matrix.ndim != 2 or matrix.shape[0] != matrix.shape[1]:
         raise ValueError("Input matrix must be a square 2D NumPy array.")
-    if not np.allclose(matrix, matrix.T, atol=tolerance):
+    if not np.all(np.isfinite(matrix)) or not np.allclose(matrix, matrix.T, atol=tolerance):
         return False
     try:
         eigenvalues = la.eigvalsh(matrix)
-- 
2.43.0


From 47babacfafca4618f46986ea741b37a33d9b5261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:45 +0000
Subject: [PATCH 070/117] fix: frontier grids draw every frontier, also those
 sharing a label

---
 pyvallocation/plotting.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyvallocation/plotting.py b/pyvallocation/plotting.py
index 89f7331..c0ef896 100644
--- a/pyvallocation/plotting.py
+++ b/pyvallocation/plotting.py
@@ -444,11 +444,10 @@ def plot_frontiers_grid(
     normalized = _normalize_frontiers(frontiers, labels)
     grouper = by or (lambda supplied, fr: fr.risk_measure or "Risk")
 
-    grouped: "OrderedDict[str, OrderedDict[str, PortfolioFrontier]]" = OrderedDict()
+    grouped: "OrderedDict[str, List[Tuple[Optional[str], PortfolioFrontier]]]" = OrderedDict()
     for supplied_label, frontier in normalized:
         key = str(grouper(supplied_label, frontier))
-        bucket = grouped.setdefault(key, OrderedDict())
-        bucket[supplied_label or frontier.risk_measure] = frontier
+        grouped.setdefault(key, []).append((supplied_label or frontier.risk_measure, frontier))
 
     if not grouped:
         raise ValueError("No frontiers supplied.")
@@ -458,7 +457,7 @@ def plot_frontiers_grid(
     fig, axes = plt.subplots(rows, cols, figsize=figsize, sharex=sharex, sharey=sharey)
     axes_flat = np.atleast_1d(axes).ravel()
 
-    for ax, (group_name, mapping) in zip(axes_flat, grouped.items()):
+    for ax, (group_name, members) in zip(axes_flat, grouped.items()):
         show_legend = legend
         if legend_policy == "auto":
             show_legend = legend and len(grouped) == 1
@@ -470,7 +469,8 @@ def plot_frontiers_grid(
             raise ValueError("`legend_policy` must be 'auto', 'each', or 'none'.")
 
         plot_frontiers(
-            mapping,
+            [frontier for _, frontier in members],
+            labels=[label for label, _ in members],
             ax=ax,
             highlight=highlight,
             risk_free_rate=risk_free_rate,
-- 
2.43.0


From 8835ad7728effd21771c4d421fca042eebe8d4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:49 +0000
Subject: [PATCH 071/117] fix: frontier grids accept the documented legend
 policy 'all'

---
 pyvallocation/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/plotting.py b/pyvallocation/plotting.py
index c0ef896..b6b6890 100644
--- a/pyvallocation/plotting.py
+++ b/pyvallocation/plotting.py
@@ -463,10 +463,10 @@ def plot_frontiers_grid(
             show_legend = legend and len(grouped) == 1
         elif legend_policy == "none":
             show_legend = False
-        elif legend_policy == "each":
+        elif legend_policy in {"all", "each"}:
             show_legend = legend
         else:
-            raise ValueError("`legend_policy` must be 'auto', 'each', or 'none'.")
+            raise ValueError("`legend_policy` must be 'auto', 'all' (or 'each'), or 'none'.")
 
         plot_frontiers(
             [frontier for _, frontier in members],
-- 
2.43.0


From 91002a882a1288e27922621d62c1300adc33eaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:53 +0000
Subject: [PATCH 072/117] fix: vertical weight bars keep their asset names

---
 pyvallocation/plotting.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyvallocation/plotting.py b/pyvallocation/plotting.py
index b6b6890..e94e24f 100644
--- a/pyvallocation/plotting.py
+++ b/pyvallocation/plotting.py
@@ -533,9 +533,8 @@ def plot_weights(
         try:
             from matplotlib.ticker import FuncFormatter
             fmt = FuncFormatter(lambda x, _pos: f"{x:.1%}")
-            ax.xaxis.set_major_formatter(fmt)
-            if kind == "bar":
-                ax.yaxis.set_major_formatter(fmt)
+            # only the value axis: the other one carries the asset names
+            (ax.xaxis if kind == "barh" else ax.yaxis).set_major_formatter(fmt)
         except Exception:  # pragma: no cover
             pass
 
-- 
2.43.0


From 921a8ebad268e4ce3f7b6f78742428f4930cbe8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:57 +0000
Subject: [PATCH 073/117] fix: parameter-impact plots draw on the axes they are
 given

---
 pyvallocation/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/plotting.py b/pyvallocation/plotting.py
index e94e24f..b887c29 100644
--- a/pyvallocation/plotting.py
+++ b/pyvallocation/plotting.py
@@ -641,8 +641,8 @@ def plot_param_impact(
     if ax is None:
         fig, axes = plt.subplots(1, 2, figsize=(8, 3))
     else:
-        fig = ax.figure
         axes = ax
+        fig = np.ravel(axes)[0].figure
 
     ax_return, ax_risk = axes
     ax_return.plot(values, returns, marker="o")
-- 
2.43.0


From 861f9e2e682e364a702033693bb117453bee7d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:21 +0000
Subject: [PATCH 074/117] fix: frontier reports mark the selected portfolio,
 tangency included, on the plotted risk axis

---
 pyvallocation/plotting.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pyvallocation/plotting.py b/pyvallocation/plotting.py
index b887c29..8c49641 100644
--- a/pyvallocation/plotting.py
+++ b/pyvallocation/plotting.py
@@ -935,6 +935,7 @@ def plot_frontier_report(
     selection_key = selection.lower()
     selection_kwargs = dict(selection_kwargs or {})
 
+    primary_axis = risk_label is None or risk_label == frontier.risk_measure
     selected_weights = weights
     selected_risk = None
     selected_return = None
@@ -945,10 +946,16 @@ def plot_frontier_report(
                 risk_label=risk_label
             )
         elif selection_key in {"max_return", "maximum_return"}:
-            selected_weights, selected_return, selected_risk = frontier.max_return()
+            selected_weights, selected_return, _ = frontier.max_return()
+            selected_risk = float(frontier._risk_vector(risk_label)[int(np.argmax(frontier.returns))])
         elif selection_key in {"tangency", "max_sharpe", "sharpe"}:
-            rf = float(selection_kwargs.pop("risk_free_rate", 0.0))
+            rf = float(selection_kwargs.get("risk_free_rate", 0.0))
             selected_weights, selected_return, selected_risk = frontier.tangency(rf)
+            if not primary_axis:
+                *_, idx = _resolve_highlight(
+                    frontier, "tangency", risk_vector=frontier.risks, risk_free_rate=rf
+                )
+                selected_risk = float(frontier._risk_vector(risk_label)[idx])
         elif selection_key in {"risk_target", "max_return_subject_to_risk"}:
             max_risk = float(selection_kwargs.pop("max_risk"))
             selected_weights, selected_return, selected_risk = frontier.at_risk(
@@ -977,12 +984,14 @@ def plot_frontier_report(
         else:
             raise ValueError(f"Unknown selection '{selection}'.")
 
-    highlight = (selection_key,) if selection_key in {"min_risk", "max_return", "tangency"} else ()
+    # the Sharpe ratio is taken in the primary risk, whatever the plotted axis
+    markers = {"min_risk", "max_return"} | ({"tangency"} if primary_axis else set())
+    highlight = (selection_key,) if selection_key in markers else ()
     plot_frontiers(
         frontier,
         ax=ax_frontier,
         highlight=highlight,
-        risk_free_rate=selection_kwargs.get("risk_free_rate"),
+        risk_free_rate=selection_kwargs.get("risk_free_rate", 0.0),
         show_points=show_points,
         percent_axes=percent_axes,
         risk_label=risk_label,
-- 
2.43.0


From 8dac9611238fbcf630e4053870d9eea6878a8684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:53 +0000
Subject: [PATCH 075/117] fix: shrinkage inputs whose rows and columns are
 labelled in different orders are refused

---
 pyvallocation/moments.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index cf364dc..0427082 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -150,6 +150,9 @@ def _labels(*objs: ArrayLike) -> Optional[Sequence[str]]:
         candidate = None
         if isinstance(obj, pd.DataFrame):
             candidate = obj.columns.to_list()
+            rows = obj.index.to_list()
+            if rows != candidate and len(rows) == len(candidate) and set(rows) == set(candidate):
+                raise ValueError(f"Row and column label orderings differ: {rows} vs {candidate}.")
         elif isinstance(obj, pd.Series):
             candidate = obj.index.to_list()
         if candidate is not None:
-- 
2.43.0


From 7039dfaa7955cec0d291a57c6b2a7bd154e82c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:57 +0000
Subject: [PATCH 076/117] fix: portfolio variance matches labelled weights and
 covariance by label

---
 pyvallocation/utils/functions.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyvallocation/utils/functions.py b/pyvallocation/utils/functions.py
index 953de69..f704c98 100644
--- a/pyvallocation/utils/functions.py
+++ b/pyvallocation/utils/functions.py
@@ -30,6 +30,13 @@ def portfolio_variance(
     Returns:
         Scalar variance (single portfolio) or ``(M,)`` array for multiple portfolios.
     """
+    if isinstance(cov, pd.DataFrame) and isinstance(w, (pd.Series, pd.DataFrame)):
+        labels = list(w.index)
+        reordered = list(cov.index) != labels or list(cov.columns) != labels
+        if reordered and w.index.is_unique and cov.shape == (len(labels), len(labels)) and (
+            set(cov.index) == set(labels) == set(cov.columns)
+        ):  # labelled alike: match by label
+            cov = cov.loc[labels, labels]
     W = _ensure_weights_matrix(w)
     cov_np = np.asarray(cov, dtype=float)
     quad = np.sum((W.T @ cov_np) * W.T, axis=1)
-- 
2.43.0


From 417ca6784b66a7ede58b4c679ad850650269fe8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:00 +0000
Subject: [PATCH 077/117] fix: return conversions match labelled mean and
 covariance by label

---
 pyvallocation/utils/projection.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pyvallocation/utils/projection.py b/pyvallocation/utils/projection.py
index 4aedb0b..ef31634 100644
--- a/pyvallocation/utils/projection.py
+++ b/pyvallocation/utils/projection.py
@@ -112,6 +112,18 @@ def _wrap_matrix(x_np, template):
     )
 
 
+def _align_covariance(mu, cov):
+    """Order a labelled covariance like the labelled mean of the same assets."""
+    if isinstance(mu, pd.Series) and isinstance(cov, pd.DataFrame):
+        labels = list(mu.index)
+        reordered = list(cov.index) != labels or list(cov.columns) != labels
+        if reordered and mu.index.is_unique and cov.shape == (len(labels), len(labels)) and (
+            set(cov.index) == set(labels) == set(cov.columns)
+        ):
+            return cov.loc[labels, labels]
+    return cov
+
+
 def log2simple(mu_g, cov_g):
     r"""\mu,\Sigma of log-returns -> \mu,\Sigma of simple returns (vectorised, pandas-aware).
 
@@ -122,6 +134,7 @@ def log2simple(mu_g, cov_g):
     Returns:
         Tuple[ArrayLike, ArrayLike]: Mean and covariance in simple-return units.
     """
+    cov_g = _align_covariance(mu_g, cov_g)
     mu_g_np = _to_numpy(mu_g)
     cov_g_np = _to_numpy(cov_g)
 
@@ -147,6 +160,7 @@ def simple2log(mu_r, cov_r):
     Returns:
         Tuple[ArrayLike, ArrayLike]: Mean and covariance in log-return units.
     """
+    cov_r = _align_covariance(mu_r, cov_r)
     mu_r_np = _to_numpy(mu_r)
     cov_r_np = _to_numpy(cov_r)
 
-- 
2.43.0


From 1be123b41966620076233bd775c969ba4b57c27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:03 +0000
Subject: [PATCH 078/117] fix: row and column label orders are compared for
 covariances only, not for return panels

---
 pyvallocation/moments.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index 0427082..383e242 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -150,9 +150,6 @@ def _labels(*objs: ArrayLike) -> Optional[Sequence[str]]:
         candidate = None
         if isinstance(obj, pd.DataFrame):
             candidate = obj.columns.to_list()
-            rows = obj.index.to_list()
-            if rows != candidate and len(rows) == len(candidate) and set(rows) == set(candidate):
-                raise ValueError(f"Row and column label orderings differ: {rows} vs {candidate}.")
         elif isinstance(obj, pd.Series):
             candidate = obj.index.to_list()
         if candidate is not None:
@@ -166,6 +163,16 @@ def _labels(*objs: ArrayLike) -> Optional[Sequence[str]]:
     return found
 
 
+def _mean_covariance_labels(mu: ArrayLike, S: ArrayLike) -> Optional[Sequence[str]]:
+    """Return the labels of a mean and covariance, refusing rows ordered unlike columns."""
+    labels = _labels(mu, S)
+    if isinstance(S, pd.DataFrame):
+        rows, columns = S.index.to_list(), S.columns.to_list()
+        if rows != columns and len(rows) == len(columns) and set(rows) == set(columns):
+            raise ValueError(f"Row and column label orderings differ: {rows} vs {columns}.")
+    return labels
+
+
 def _wrap(x: np.ndarray, labels: Optional[Sequence[str]], vector: bool) -> ArrayLike:
     """Wrap arrays into pandas containers when labels are available.
 
@@ -294,7 +301,7 @@ def shrink_mean_jorion(mu: ArrayLike, S: ArrayLike, T: int) -> ArrayLike:
     mu_bs = mu_arr - v_clipped * diff
 
     logger.debug("Applied Bayes-Stein shrinkage to mean vector.")
-    return _wrap(mu_bs, _labels(mu, S), True)
+    return _wrap(mu_bs, _mean_covariance_labels(mu, S), True)
 
 
 def shrink_covariance_ledoit_wolf(
@@ -391,7 +398,7 @@ def shrink_covariance_ledoit_wolf(
     Sigma = (Sigma + Sigma.T) / 2
 
     logger.debug("Applied Ledoit-Wolf shrinkage to covariance matrix.")
-    return _wrap(Sigma, _labels(R, S_hat), False)
+    return _wrap(Sigma, _mean_covariance_labels(R, S_hat), False)
 
 
 def shrink_covariance_oas(R: ArrayLike, assume_centered: bool = True) -> ArrayLike:
@@ -1005,7 +1012,7 @@ def shrink_mean_james_stein(
     else:
         shrink = max(0.0, 1.0 - max(N - 2.0, 0.0) / quad)
     mu_js = mu_target + shrink * diff
-    return _wrap(mu_js, _labels(mu_hat, S), True)
+    return _wrap(mu_js, _mean_covariance_labels(mu_hat, S), True)
 
 
 def robust_mean_huber(
-- 
2.43.0


From 2b7ea48ca0561ce779bf45e255b6e7e5763cac2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:10 +0000
Subject: [PATCH 079/117] fix: portfolio VaR and CVaR refuse improper scenario
 probabilities

---
 pyvallocation/utils/functions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/utils/functions.py b/pyvallocation/utils/functions.py
index f704c98..1d7ef94 100644
--- a/pyvallocation/utils/functions.py
+++ b/pyvallocation/utils/functions.py
@@ -4,6 +4,8 @@ from __future__ import annotations
 import numpy as np
 import pandas as pd
 
+from ..probabilities import resolve_probabilities
+
 def _ensure_weights_matrix(w: np.ndarray | pd.Series | pd.DataFrame) -> np.ndarray:
     """Accept vector or matrix weights and return an ``(N, M)`` ndarray.
 
@@ -86,7 +88,7 @@ def portfolio_cvar(
         raise ValueError("demean must be either True or False.")
 
     R_arr = np.asarray(R, dtype=float)
-    p = np.full((R_arr.shape[0], 1), 1.0 / R_arr.shape[0]) if p is None else np.asarray(p, dtype=float).reshape(-1, 1)
+    p = resolve_probabilities(p, R_arr.shape[0]).reshape(-1, 1)
 
     if demean:
         R_arr = R_arr - p.T @ R_arr
@@ -147,7 +149,7 @@ def portfolio_var(
         raise ValueError("demean must be either True or False.")
 
     R_arr = np.asarray(R, dtype=float)
-    p = np.full((R_arr.shape[0], 1), 1.0 / R_arr.shape[0]) if p is None else np.asarray(p, dtype=float).reshape(-1, 1)
+    p = resolve_probabilities(p, R_arr.shape[0]).reshape(-1, 1)
 
     if demean:
         R_arr = R_arr - p.T @ R_arr
-- 
2.43.0


From f7eb592ff32ee25a10a592161aecd69bef833fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:14 +0000
Subject: [PATCH 080/117] fix: entropy pooling refuses inequality coefficients
 without bounds

---
 pyvallocation/views.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index dc972f2..e2ecd5c 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -247,7 +247,9 @@ def entropy_pooling(
     if lhs.shape[0] != num_equalities:
         raise ValueError("`A` and `b` must describe the same number of constraints.")
 
-    if G is None or h is None:
+    if (G is None) != (h is None):
+        raise ValueError("`G` and `h` must be supplied together.")
+    if G is None:
         rhs = b_col
     else:
         h_col = np.asarray(h, dtype=float).reshape(-1, 1)
-- 
2.43.0


From 6d17e77ddbb00fcdf771efd3817119b8112c55cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:18 +0000
Subject: [PATCH 081/117] fix: return conversions refuse a mean and covariance
 of different sizes

---
 pyvallocation/utils/projection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/utils/projection.py b/pyvallocation/utils/projection.py
index ef31634..6a9e927 100644
--- a/pyvallocation/utils/projection.py
+++ b/pyvallocation/utils/projection.py
@@ -113,7 +113,10 @@ def _wrap_matrix(x_np, template):
 
 
 def _align_covariance(mu, cov):
-    """Order a labelled covariance like the labelled mean of the same assets."""
+    """Order a labelled covariance like the labelled mean of the same assets, both of one size."""
+    n = np.size(mu)
+    if np.shape(cov) != (n, n):
+        raise ValueError(f"Covariance must have shape ({n}, {n}), got {np.shape(cov)}.")
     if isinstance(mu, pd.Series) and isinstance(cov, pd.DataFrame):
         labels = list(mu.index)
         reordered = list(cov.index) != labels or list(cov.columns) != labels
-- 
2.43.0


From 9d5138a90c4372ef895c16e0195ce16dda494553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:21 +0000
Subject: [PATCH 082/117] fix: the effective number of scenarios refuses
 improper probabilities

---
 pyvallocation/probabilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvallocation/probabilities.py b/pyvallocation/probabilities.py
index 59f6f49..5704023 100644
--- a/pyvallocation/probabilities.py
+++ b/pyvallocation/probabilities.py
@@ -193,6 +193,8 @@ def compute_effective_number_scenarios(probabilities: np.ndarray) -> float:
         :cite:p:`meucci2012ens`
     """
     p = np.asarray(probabilities, dtype=float).ravel()
+    if not np.all(np.isfinite(p)) or np.any(p < 0.0) or not np.any(p > 0.0):
+        raise ValueError("Probabilities must be finite and non-negative with positive mass.")
     # Use convention 0*log(0) = 0 via masking
     mask = p > 0
     entropy = -np.sum(p[mask] * np.log(p[mask]))
-- 
2.43.0


From 8cf8130bf152948425794368bf4efca4e29a04e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:28 +0000
Subject: [PATCH 083/117] fix: moment scaling refuses a non-positive horizon
 factor

---
 pyvallocation/utils/projection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvallocation/utils/projection.py b/pyvallocation/utils/projection.py
index 6a9e927..8ae267a 100644
--- a/pyvallocation/utils/projection.py
+++ b/pyvallocation/utils/projection.py
@@ -24,6 +24,8 @@ def project_mean_covariance(
     Returns:
         tuple: Scaled mean vector and covariance matrix.
     """
+    if not (np.isfinite(annualization_factor) and annualization_factor > 0):
+        raise ValueError("`annualization_factor` must be positive and finite.")
 
     return mu * annualization_factor, cov * annualization_factor
 
-- 
2.43.0


From 88f2d2aa0e3aed5016cbd4e38e72dea8a4e8c388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:56 +0000
Subject: [PATCH 084/117] fix: integer initial weights and costs are accepted
 by every optimiser

---
 pyvallocation/optimization.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index b13e1d1..9d1b574 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -126,6 +126,7 @@ def _quadratic_turnover(
     The factor two stems from the *1/2* convention adopted internally by
     :py:func:`cvxopt.solvers.qp`.
     """
+    w0, lambdas = np.asarray(w0, dtype=float), np.asarray(lambdas, dtype=float)
     _check_shapes(w0=w0, lambdas=lambdas)
     lambda_diag = np.diag(lambdas)
     return P + 2 * lambda_diag, q - 2 * lambda_diag @ w0
@@ -150,6 +151,7 @@ def _linear_turnover_blocks(
     b_trade : np.ndarray
         Right-hand side (simply ``w0``).
     """
+    w0, costs = np.asarray(w0, dtype=float), np.asarray(costs, dtype=float)
     _check_shapes(w0=w0, costs=costs)
     c_cost = np.hstack((costs, costs))
     A_trade = np.concatenate(
@@ -841,7 +843,8 @@ class RobustOptimizer(_BaseOptimization):
         self._w0, self._costs = initial_weights, proportional_costs
         self._has_costs = initial_weights is not None and proportional_costs is not None
         if self._has_costs:
-            _check_shapes(initial_weights=initial_weights, proportional_costs=proportional_costs)
+            self._w0, self._costs = np.asarray(initial_weights, float), np.asarray(proportional_costs, float)
+            _check_shapes(initial_weights=self._w0, proportional_costs=self._costs)
 
     # ---------------------------------------------------------------- #
     # public wrappers
-- 
2.43.0


From ed692539686bc0d3bce26c24f630ef7514229a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:00 +0000
Subject: [PATCH 085/117] fix: mean-variance portfolios do not depend on the
 unit of returns

---
 pyvallocation/optimization.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 9d1b574..b503c0c 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -112,6 +112,12 @@ def _check_shapes(**arrays: npt.NDArray[np.floating]) -> None:
         raise ValueError(f"Shape mismatch: {shapes}")
 
 
+def _unit(values: np.ndarray) -> float:
+    """Return the size of ``values``: CVXOPT's tolerances are absolute, so programmes are solved in this unit."""
+    size = float(np.max(np.abs(values), initial=0.0))
+    return size if np.isfinite(size) and size > 0.0 else 1.0
+
+
 def _quadratic_turnover(
     P: np.ndarray,
     q: np.ndarray,
@@ -438,20 +444,23 @@ class MeanVariance(_FrontierMixin, _BaseOptimization):
         if return_target is not None:
             if not np.isfinite(return_target):
                 raise ValueError("`return_target` must be a finite scalar.")
-            G = self._expected_row if G is None else matrix([G, self._expected_row])
-            h = matrix([-return_target]) if h is None else matrix(
-                np.append(np.asarray(h).ravel(), -return_target)
+            unit = _unit(self._mean)
+            row, target = self._expected_row / unit, return_target / unit
+            G = row if G is None else matrix([G, row])
+            h = matrix([-target]) if h is None else matrix(
+                np.append(np.asarray(h).ravel(), -target)
             )
+        P_np, q_np = np.asarray(self._P), np.asarray(self._q).ravel()
+        mean_diag = np.trace(P_np) / max(self._I, 1)
+        unit = mean_diag if mean_diag > 0.0 else 1.0
         try:
-            sol = solvers.qp(self._P, self._q, G, h, self._A, self._b)
+            sol = solvers.qp(matrix(P_np / unit), matrix(q_np / unit), G, h, self._A, self._b)
         except (ArithmeticError, ValueError) as exc:
             if "domain error" not in str(exc) and not isinstance(exc, ArithmeticError):
                 raise
             sol = {"status": "unknown", "x": None}  # numerical breakdown inside CVXOPT
         if sol["status"] != "optimal":  # scale-adaptive ridge regularisation fallback
-            P_np, q_np = np.asarray(self._P), np.asarray(self._q).ravel()
-            mean_diag = np.trace(P_np) / max(self._I, 1)
-            ridge = max(1e-8, 1e-8 * mean_diag)
+            ridge = 1e-8 * unit
             P_reg = P_np + np.eye(self._I) * ridge
             attempts = [sol]
             # the interior-point method can stall on a badly scaled objective: rescale and retry
-- 
2.43.0


From 257fb3e838a88617846d2edeaafed762e857e8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:04 +0000
Subject: [PATCH 086/117] fix: CVaR portfolios do not depend on the unit of
 returns

---
 pyvallocation/optimization.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index b503c0c..4c169a7 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -296,11 +296,12 @@ class _BaseOptimization(ABC):
         the current constraint set.  Used to anchor the **right end** of every
         efficient frontier.
         """
+        unit = _unit(self._mean)
         sol = solvers.lp(
-            self._expected_row.T, self._G, self._h, self._A, self._b, solver="glpk"
+            self._expected_row.T / unit, self._G, self._h, self._A, self._b, solver="glpk"
         )
         self._assert_optimal(sol, "LP")
-        return -sol["primal objective"]
+        return -sol["primal objective"] * unit
 
 # ------------------------------------------------------------------ #
 # Frontier mix-in
@@ -636,9 +637,10 @@ class MeanCVaR(_FrontierMixin, _BaseOptimization):
 
         base_len = N + 1 + T
         extra_len = 2 * N if self._has_costs else 0
+        unit = _unit(R)    # c and \xi are measured in this unit
         # objective
         turnover_cost = (
-            _linear_turnover_blocks(N, T, initial_weights, proportional_costs)[0]
+            _linear_turnover_blocks(N, T, initial_weights, proportional_costs)[0] / unit
             if self._has_costs
             else []
         )
@@ -649,7 +651,7 @@ class MeanCVaR(_FrontierMixin, _BaseOptimization):
         # 1) \xi >= -R w - c
         G_blocks += [
             np.concatenate(
-                (-R, -np.ones((T, 1)), -np.eye(T), np.zeros((T, extra_len))), axis=1
+                (-R / unit, -np.ones((T, 1)), -np.eye(T), np.zeros((T, extra_len))), axis=1
             ),
             # 2) \xi >= 0
             np.concatenate(
@@ -710,9 +712,11 @@ class MeanCVaR(_FrontierMixin, _BaseOptimization):
         if return_target is not None:
             if not np.isfinite(return_target):
                 raise ValueError("`return_target` must be a finite scalar.")
-            G = self._expected_row if G is None else matrix([G, self._expected_row])
-            h = matrix([-return_target]) if h is None else matrix(
-                np.append(np.asarray(h).ravel(), -return_target)
+            unit = _unit(self._mean)
+            row, target = self._expected_row / unit, return_target / unit
+            G = row if G is None else matrix([G, row])
+            h = matrix([-target]) if h is None else matrix(
+                np.append(np.asarray(h).ravel(), -target)
             )
         sol = solvers.lp(self._c, G, h, self._A, self._b, solver="glpk")
         self._assert_optimal(sol, "LP")
-- 
2.43.0


From c14dcaec4df6a26460b821a48cdf51ba09c28f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:08 +0000
Subject: [PATCH 087/117] fix: robust portfolios do not depend on the unit of
 returns

---
 pyvallocation/optimization.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 4c169a7..f36f1ae 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -921,15 +921,16 @@ class RobustOptimizer(_BaseOptimization):
         extra = 2 * n if self._has_costs else 0
         n_vars = n + 1 + extra            #  w | t | (u^+,u^-)
         penalty = kw.get("lam", kw.get("gamma_mu"))
+        unit = _unit(np.hstack((self._mean, self._s_sqrt.ravel())))    # t is measured in this unit
 
         c = np.hstack(
-            (-self._mean, penalty, np.tile(np.asarray(self._costs, float), 2) if self._has_costs else [])
+            (-self._mean / unit, penalty, np.tile(np.asarray(self._costs, float), 2) / unit if self._has_costs else [])
         )
 
         # --- SOC:  ||S^{1/2}w||_2 <= t  ------------------------------- #
         G_soc = np.zeros((n + 1, n_vars))
         G_soc[0, n] = -1
-        G_soc[1:, :n] = -self._s_sqrt.T    # S = L L' => ||L' w||_2 = sqrt(w' S w)
+        G_soc[1:, :n] = -self._s_sqrt.T / unit    # S = L L' => ||L' w||_2 = sqrt(w' S w)
         h_soc = np.zeros(n + 1)
 
         # --- linear inequalities ----------------------------------- #
@@ -958,7 +959,7 @@ class RobustOptimizer(_BaseOptimization):
         # optional *gamma_sigma_sq* translates to an upper bound on *t*
         if "gamma_sigma_sq" in kw:
             G_lin = np.vstack([G_lin, np.eye(1, n_vars, n)])
-            h_lin = np.hstack([h_lin, np.sqrt(kw["gamma_sigma_sq"])])
+            h_lin = np.hstack([h_lin, np.sqrt(kw["gamma_sigma_sq"]) / unit])
 
         # --- equalities -------------------------------------------- #
         if self._has_costs:
-- 
2.43.0


From d00d2f04aee9097fff9ff7a5e9e283c28b689235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:13 +0000
Subject: [PATCH 088/117] fix: relaxed risk parity does not depend on the unit
 of returns

---
 pyvallocation/optimization.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index f36f1ae..e21f3c6 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -1123,6 +1123,9 @@ class RelaxedRiskParity(_BaseOptimization):
                 if min_target is not None:  # clipping never goes below the baseline
                     target_used = max(target_used, min_target)
 
+        unit = _unit(self._theta_sqrt)    # psi, gamma, rho and q are measured in this unit, zeta in its square
+        return_unit = _unit(self._mean)
+
         c = np.zeros(n_vars, dtype=float)
         c[psi_idx] = 1.0
         c[gamma_idx] = -1.0
@@ -1133,7 +1136,7 @@ class RelaxedRiskParity(_BaseOptimization):
 
         A_rows.append(
             np.hstack(
-                (-self._cov, np.eye(n, dtype=float), np.zeros((n, 4), dtype=float))
+                (-self._cov / unit**2, np.eye(n, dtype=float), np.zeros((n, 4), dtype=float))
             )
         )
         b_rows.append(np.zeros(n, dtype=float))
@@ -1191,9 +1194,9 @@ class RelaxedRiskParity(_BaseOptimization):
 
         if target_used is not None:
             G_ret = np.zeros((1, n_vars), dtype=float)
-            G_ret[0, x_slice] = -self._mean
+            G_ret[0, x_slice] = -self._mean / return_unit
             G_blocks.append(G_ret)
-            h_blocks.append(np.array([-target_used], dtype=float))
+            h_blocks.append(np.array([-target_used / return_unit], dtype=float))
 
         if G_blocks:
             G_lin = np.vstack(G_blocks)
@@ -1209,7 +1212,7 @@ class RelaxedRiskParity(_BaseOptimization):
 
         G1 = np.zeros((n + 1, n_vars), dtype=float)
         G1[0, q_idx] = -1.0
-        G1[1:, x_slice] = -self._chol.T    # ||L' x||_2 = sqrt(x' Sigma x)
+        G1[1:, x_slice] = -self._chol.T / unit    # ||L' x||_2 = sqrt(x' Sigma x)
         G_soc_all.append(G1)
         h_soc_all.append(np.zeros(n + 1, dtype=float))
         soc_dims.append(n + 1)
@@ -1226,7 +1229,7 @@ class RelaxedRiskParity(_BaseOptimization):
         if lambda_reg > 0.0:
             G3 = np.zeros((n + 1, n_vars), dtype=float)
             G3[0, rho_idx] = -1.0
-            coeffs = np.diag(np.sqrt(lambda_reg) * self._theta_sqrt, k=0)
+            coeffs = np.diag(np.sqrt(lambda_reg) * self._theta_sqrt / unit, k=0)
             G3[1:, x_slice] = -coeffs
             G_soc_all.append(G3)
             h_soc_all.append(np.zeros(n + 1, dtype=float))
@@ -1270,10 +1273,10 @@ class RelaxedRiskParity(_BaseOptimization):
 
         x_opt = np.asarray(sol["x"], dtype=float).ravel()
         weights = x_opt[x_slice]
-        marginal_risk = x_opt[zeta_slice]
-        psi = float(x_opt[psi_idx])
-        gamma = float(x_opt[gamma_idx])
-        rho = float(x_opt[rho_idx])
+        marginal_risk = x_opt[zeta_slice] * unit**2
+        psi = float(x_opt[psi_idx]) * unit
+        gamma = float(x_opt[gamma_idx]) * unit
+        rho = float(x_opt[rho_idx]) * unit
 
         return RelaxedRiskParityResult(
             weights=weights,
@@ -1360,8 +1363,9 @@ class RelaxedRiskParity(_BaseOptimization):
             A_lp = np.vstack((np.ones((1, n), dtype=float), A_user))
             b_lp = np.hstack((1.0, b_user))
 
+        unit = _unit(self._mean)
         sol_lp = solvers.lp(
-            matrix(-self._mean),
+            matrix(-self._mean / unit),
             matrix(G_lp),
             matrix(h_lp),
             matrix(A_lp),
@@ -1369,4 +1373,4 @@ class RelaxedRiskParity(_BaseOptimization):
             solver="glpk",
         )
         self._assert_optimal(sol_lp, "LP")
-        return -sol_lp["primal objective"]
+        return -sol_lp["primal objective"] * unit
-- 
2.43.0


From db5e45240c949458fac3e875e10696a2448cf735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:17 +0000
Subject: [PATCH 089/117] fix: the CVaR frontier's envelope tolerance follows
 the unit of returns

---
 pyvallocation/portfolioapi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index d73f977..028dab3 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -1419,7 +1419,8 @@ class PortfolioWrapper:
             risks = np.maximum.accumulate(risks)
 
             # 2) convexify via lower convex envelope in (return, risk)
-            def _lower_convex_envelope(x: np.ndarray, y: np.ndarray, eps: float = 1e-12) -> np.ndarray:
+            def _lower_convex_envelope(x: np.ndarray, y: np.ndarray, eps: float = 1e-10) -> np.ndarray:
+                eps = eps * np.ptp(x) * np.ptp(y)  # relative to the units of return and risk
                 idx_stack: list[int] = []
                 for i in range(len(x)):
                     while len(idx_stack) >= 2:
-- 
2.43.0


From 05cea45cada4e63ec8aaabf1fdbc3d1168f82cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:21 +0000
Subject: [PATCH 090/117] fix: views on prior moments regularise the covariance
 in its own unit

---
 pyvallocation/views.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index e2ecd5c..ea64e27 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -583,7 +583,7 @@ class FlexibleViewsProcessor:
                     f"`prior_cov` must be a square matrix of shape ({N}, {N})."
                 )
             cov = 0.5 * (cov + cov.T)
-            cov = cov + np.eye(N) * 1e-6
+            cov = cov + np.eye(N) * (1e-6 * np.trace(cov) / max(N, 1))
             chol = _cholesky_pd(cov)
 
             rng = np.random.default_rng(random_state)
-- 
2.43.0


From 8d82626f4593238831e20c6242ea657ba8331816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:36 +0000
Subject: [PATCH 091/117] fix: nearly tied returns at the maximum do not depend
 on the unit of returns

---
 pyvallocation/optimization.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index e21f3c6..de74962 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -426,8 +426,9 @@ class MeanVariance(_FrontierMixin, _BaseOptimization):
         if suboptimality(best) <= 1e-3:
             return {**best, "status": "optimal"}
         if return_target is not None:
-            top = solvers.lp(self._expected_row.T, self._G, self._h, self._A, self._b, solver="glpk")
-            if top["status"] == "optimal" and np.isclose(-top["primal objective"], return_target, rtol=1e-9, atol=1e-12):
+            unit = _unit(self._mean)
+            top = solvers.lp(self._expected_row.T / unit, self._G, self._h, self._A, self._b, solver="glpk")
+            if top["status"] == "optimal" and np.isclose(-top["primal objective"], return_target / unit, rtol=1e-9, atol=1e-12):
                 return top
         return attempts[0]
 
-- 
2.43.0


From e424d7a761bcd5b85b62cb2c7e8d421cbfe58dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:21 +0000
Subject: [PATCH 092/117] fix: mean-variance retries are scaled and accepted in
 the unit of the problem

---
 pyvallocation/optimization.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index de74962..016b28c 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -420,10 +420,10 @@ class MeanVariance(_FrontierMixin, _BaseOptimization):
         def suboptimality(sol: dict) -> float:
             if sol["x"] is None or sol["relative gap"] is None or not sol["primal infeasibility"] <= 1e-8:
                 return np.inf
-            return 1e2 * sol["relative gap"] + scale * sol["dual infeasibility"] / max(abs(sol["primal objective"]), 1e-12)
+            return 1e1 * sol["relative gap"] + scale * sol["dual infeasibility"] / max(abs(sol["primal objective"]), 1e-12)
 
         best = min(attempts, key=suboptimality)
-        if suboptimality(best) <= 1e-3:
+        if suboptimality(best) <= 5e-3:
             return {**best, "status": "optimal"}
         if return_target is not None:
             unit = _unit(self._mean)
@@ -466,9 +466,7 @@ class MeanVariance(_FrontierMixin, _BaseOptimization):
             P_reg = P_np + np.eye(self._I) * ridge
             attempts = [sol]
             # the interior-point method can stall on a badly scaled objective: rescale and retry
-            for scale in (1.0, 1e-2 * mean_diag, 1e-4 * mean_diag, mean_diag):
-                if not scale > 0.0:
-                    continue
+            for scale in unit * np.array([10.0, 1e-2, 1e-4, 1.0, 1e2, 1e3]):
                 _LOGGER.debug("QP retry with ridge=%.2e, objective scale=%.2e", ridge, scale)
                 try:
                     retry = solvers.qp(matrix(P_reg / scale), matrix(q_np / scale), G, h, self._A, self._b)
-- 
2.43.0


From 9ba7efc11727ab647a13aa6d2ae0dcd19cf00614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:25 +0000
Subject: [PATCH 093/117] fix: maximum-Sharpe portfolios do not depend on the
 unit of returns

---
 pyvallocation/optimization.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 016b28c..f31c072 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -520,15 +520,15 @@ class MeanVariance(_FrontierMixin, _BaseOptimization):
         mu_excess = np.asarray(self._mean).ravel() - risk_free_rate
         N = self._I
 
-        # Build the auxiliary problem: min y'Σy s.t. (μ-rf)'y = 1
-        P = matrix(2.0 * np.asarray(self._cov, dtype=float))
+        # Build the auxiliary problem: min y'Σy s.t. (μ-rf)'y = const, in the units of Σ and μ-rf
+        P = matrix(2.0 * np.asarray(self._cov, dtype=float) / _unit(np.diag(self._cov)))
         q = matrix(np.zeros(N))
 
         # Full investment (1'w = 1) makes every affine constraint homogeneous in y:
         # G w <= h  <=>  (G - h 1')y <= 0   and   A w = b  <=>  (A - b 1')y = 0.
-        # Equality: (μ-rf)'y = 1  +  the homogeneous user equalities (the budget row vanishes)
-        A_rows = [mu_excess.reshape(1, -1)]
-        b_vals = [1.0]
+        # Equality: (μ-rf)'y = const  +  the homogeneous user equalities (the budget row vanishes)
+        A_rows = [mu_excess.reshape(1, -1) / _unit(mu_excess)]
+        b_vals = [10.0]  # large against CVXOPT's absolute tolerances; y is rescaled below
         if self._A is not None:
             A_hom = np.asarray(self._A, dtype=float) - np.asarray(self._b, dtype=float).reshape(-1, 1)
             for row in A_hom:
@@ -548,7 +548,10 @@ class MeanVariance(_FrontierMixin, _BaseOptimization):
         h_vec = matrix(np.zeros(G_mat.size[0]))
 
         try:
-            sol = solvers.qp(P, q, G_mat, h_vec, A_mat, b_vec)
+            for scale in (1.0, 0.1, 10.0):  # the interior-point method can stall on one scaling
+                sol = solvers.qp(P / scale, q, G_mat, h_vec, A_mat, b_vec)
+                if sol["status"] == "optimal":
+                    break
         except (ValueError, ArithmeticError) as exc:  # cvxopt.qp reports infeasibility as a domain error
             raise InfeasibleOptimizationError(f"Max Sharpe portfolio is infeasible: {exc}") from exc
         if sol["status"] != "optimal":
-- 
2.43.0


From f9257fb3143e6ffc751045f1b1042cb484df0741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:29 +0000
Subject: [PATCH 094/117] fix: frontier and risk-parity thresholds follow the
 unit of returns

---
 pyvallocation/optimization.py | 4 ++--
 pyvallocation/portfolioapi.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index f31c072..1f3cec4 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -334,7 +334,7 @@ class _FrontierMixin:
             np.ndarray: Weight matrix with shape ``(N, num)``.
         """
         min_ret = float(mean @ first)
-        if num < 2 or np.isclose(min_ret, max_ret):
+        if num < 2 or np.isclose(min_ret, max_ret, atol=1e-8 * _unit(mean)):
             _LOGGER.warning("Frontier collapses to a single point.")
             return first[:, None]
         grid = np.linspace(min_ret, max_ret, num)
@@ -1119,7 +1119,7 @@ class RelaxedRiskParity(_BaseOptimization):
         max_return_value: float | None = None
         if return_target is not None:
             max_return_value = self._max_linear_return(G_user, h_user, A_user, b_user)
-            tolerance = max(1e-8, 1e-3 * abs(max_return_value))
+            tolerance = max(1e-8 * _unit(self._mean), 1e-3 * abs(max_return_value))
             if target_used >= max_return_value - tolerance:
                 target_used = max_return_value - tolerance
                 if min_target is not None:  # clipping never goes below the baseline
diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index 028dab3..d59021f 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -1305,7 +1305,7 @@ class PortfolioWrapper:
             except RuntimeError as exc:
                 last_error = exc
                 target_candidate = 0.5 * (target_candidate + lower_bound)
-                if target_candidate <= lower_bound + 1e-6:
+                if target_candidate <= lower_bound + 1e-6 * np.max(np.abs(self.dist.mu)):
                     target_candidate = lower_bound
 
         warning = str(last_error) if last_error is not None else None
@@ -1832,7 +1832,7 @@ class PortfolioWrapper:
         target_clipped = (
             solution.target_return is not None
             and requested_target is not None
-            and not np.isclose(solution.target_return, requested_target, rtol=1e-8, atol=1e-10)
+            and not np.isclose(solution.target_return, requested_target, rtol=1e-8, atol=0.0)
         )
 
         diagnostics: Dict[str, Any] = {
-- 
2.43.0


From cbbecd20ace25f5d17750909f352e021648b0190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:33 +0000
Subject: [PATCH 095/117] fix: ensemble covariance jitter follows the unit of
 returns

---
 pyvallocation/ensembles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/ensembles.py b/pyvallocation/ensembles.py
index d07bd4f..5971d27 100644
--- a/pyvallocation/ensembles.py
+++ b/pyvallocation/ensembles.py
@@ -1185,7 +1185,7 @@ def _build_distribution(
     if projection:
         mu, sigma = _apply_projection(mu, sigma, projection)
     sigma_psd = ensure_psd_matrix(np.asarray(sigma, dtype=float))
-    sigma_psd = sigma_psd + np.eye(sigma_psd.shape[0]) * 1e-10
+    sigma_psd = sigma_psd + np.eye(sigma_psd.shape[0]) * (1e-9 * np.trace(sigma_psd) / sigma_psd.shape[0])
     if isinstance(sigma, pd.DataFrame):
         sigma = pd.DataFrame(sigma_psd, index=sigma.index, columns=sigma.columns)
     else:
-- 
2.43.0


From 1a778d1de86f116b138408ac407f508f358985b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:03 +0000
Subject: [PATCH 096/117] fix: the check of weights summing to one uses the
 absolute tolerance it documents

---
 pyvallocation/utils/validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/utils/validation.py b/pyvallocation/utils/validation.py
index 8c057a5..7ac6891 100644
--- a/pyvallocation/utils/validation.py
+++ b/pyvallocation/utils/validation.py
@@ -74,7 +74,7 @@ def check_weights_sum_to_one(weights: np.ndarray, tolerance: float = 1e-6) -> bo
     Returns:
         bool: ``True`` if weights sum to one within tolerance.
     """
-    return np.isclose(np.sum(weights), 1.0, atol=tolerance)
+    return np.isclose(np.sum(weights), 1.0, rtol=0.0, atol=tolerance)
 
 
 def check_non_negativity(array: np.ndarray, tolerance: float = 1e-9) -> bool:
-- 
2.43.0


From 66310738f24d919e03552b8098f95c706dcfbefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:47 +0000
Subject: [PATCH 097/117] fix: integer-programme allocation restates the
 objective when the solver rejects its own optimum

---
 pyvallocation/discrete_allocation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/discrete_allocation.py b/pyvallocation/discrete_allocation.py
index 53595a3..144395a 100644
--- a/pyvallocation/discrete_allocation.py
+++ b/pyvallocation/discrete_allocation.py
@@ -437,7 +437,7 @@ def allocate_mip(
     )
 
     options = solver_options or {}
-    for _ in range(3):
+    for attempt in range(3):
         result = optimize.milp(
             c=c,
             integrality=integrality,
@@ -446,6 +446,10 @@ def allocate_mip(
             options=options,
         )
 
+        if result.status == 4 and attempt < 2:
+            # HiGHS may reject its own optimum at the edge of its tolerance: restate the objective and retry.
+            c = 2.0 * c
+            continue
         if not result.success:
             raise RuntimeError(f"MILP solver failed with status {result.status}: {result.message}")
 
-- 
2.43.0


From ab448f5f76aca50aac973452bd6fc4e816b361a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:52 +0000
Subject: [PATCH 098/117] fix: an infinite covariance entry no longer gives a
 portfolio volatility of zero

---
 pyvallocation/utils/functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/utils/functions.py b/pyvallocation/utils/functions.py
index 1d7ef94..f87a257 100644
--- a/pyvallocation/utils/functions.py
+++ b/pyvallocation/utils/functions.py
@@ -55,7 +55,8 @@ def portfolio_volatility(
         w: Weights vector ``(N,)`` or matrix ``(N, M)``.
         cov: Covariance matrix ``(N, N)``.
     """
-    var = np.maximum(portfolio_variance(w, cov), 0.0)
+    var = portfolio_variance(w, cov)
+    var = np.where(np.isneginf(var), np.nan, np.maximum(var, 0.0))[()]  # clip round-off only
     return float(np.sqrt(var)) if np.isscalar(var) else np.sqrt(var)
 
 def portfolio_cvar(
-- 
2.43.0


From 2986ee9140855d0e5d63752a956f993f78585b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:45 +0000
Subject: [PATCH 099/117] fix: portfolio variance rejects a covariance that
 does not match the weights

---
 pyvallocation/utils/functions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/utils/functions.py b/pyvallocation/utils/functions.py
index f87a257..52d8ec8 100644
--- a/pyvallocation/utils/functions.py
+++ b/pyvallocation/utils/functions.py
@@ -40,7 +40,9 @@ def portfolio_variance(
         ):  # labelled alike: match by label
             cov = cov.loc[labels, labels]
     W = _ensure_weights_matrix(w)
-    cov_np = np.asarray(cov, dtype=float)
+    cov_np = np.atleast_2d(np.asarray(cov, dtype=float))
+    if cov_np.shape != (W.shape[0], W.shape[0]):
+        raise ValueError(f"`cov` must have shape {(W.shape[0], W.shape[0])}, got {cov_np.shape}.")
     quad = np.sum((W.T @ cov_np) * W.T, axis=1)
     return quad.item() if quad.size == 1 else quad
 
-- 
2.43.0


From 884b6994ede91a2546e2069b7a89cf7505325695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:33 +0000
Subject: [PATCH 100/117] fix: Jorion shrinkage rejects a mean or covariance
 that is not finite

---
 pyvallocation/moments.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index 383e242..4fb09f7 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -286,6 +286,9 @@ def shrink_mean_jorion(mu: ArrayLike, S: ArrayLike, T: int) -> ArrayLike:
         )
         raise ValueError("Invalid dimensions for Jorion shrinkage.")
 
+    if not (np.isfinite(mu_arr).all() and np.isfinite(S_arr).all()):
+        raise ValueError("Jorion shrinkage requires a finite mean and covariance.")
+
     S_arr = (S_arr + S_arr.T) / 2
     try:
         S_inv = inv(S_arr + 1e-8 * np.eye(N))
-- 
2.43.0


From f480aa476f16c440e181c42d3a9eabaf605ae4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:10 +0000
Subject: [PATCH 101/117] fix: Ledoit-Wolf shrinkage rejects returns or a
 covariance that is not finite

---
 pyvallocation/moments.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index 4fb09f7..54e089f 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -362,6 +362,8 @@ def shrink_covariance_ledoit_wolf(
             S_arr.shape,
         )
         raise ValueError("Shape mismatch in inputs.")
+    if not (np.isfinite(R_arr).all() and np.isfinite(S_arr).all()):
+        raise ValueError("Ledoit-Wolf shrinkage requires finite returns and covariance.")
 
     S_arr = (S_arr + S_arr.T) / 2
     X = R_arr - R_arr.mean(0)
-- 
2.43.0


From 3fd3478894fc4a0e428e556a2aa7f6075c12c835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:56 +0000
Subject: [PATCH 102/117] fix: a CVaR view selects the tail of least relative
 entropy

---
 pyvallocation/views.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index ea64e27..5a33bbf 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -1037,7 +1037,17 @@ class FlexibleViewsProcessor:
             for s in np.unique(np.linspace(s_min, S - 2, 200).astype(int)):
                 _solve_for_s(int(s))
 
+        # Newton steps may stop short of the least relative entropy: descend from the best one
         best_s = min(cache, key=lambda s: cache[s][1])
+        step = max(1, (S - 1 - s_min) // 4)
+        while step:
+            near = [best_s] + [s for s in (best_s - step, best_s + step) if s_min <= s <= S - 2]
+            for s in near:
+                _solve_for_s(s)
+            nearest = min(near, key=lambda s: cache[s][1])
+            if nearest == best_s:
+                step //= 2
+            best_s = nearest
         best_q = cache[best_s][0]
         if best_q is None:
             raise RuntimeError(f"CVaR view solve failed for asset {asset_idx}.")
-- 
2.43.0


From b1070cb8823fb75a2079855109c8ff8b031f36a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:00 +0000
Subject: [PATCH 103/117] fix: Black-Litterman confidences accept the
 documented 'A,B' name of a relative view

---
 pyvallocation/views.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 5a33bbf..776637c 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -1574,10 +1574,12 @@ class BlackLittermanProcessor:
         if isinstance(conf, dict):
             result = []
             for k in keys:
+                if isinstance(k, tuple) and k not in conf:
+                    k = ",".join(str(part) for part in k)  # "A,B" names the view ("A", "B")
                 if k not in conf:
                     logging.getLogger(__name__).warning(
                         "No confidence found for view key %r; defaulting to 1.0. "
-                        "Ensure confidence keys match view keys exactly (e.g. tuple for relative views).",
+                        "Ensure confidence keys match view keys (a tuple or 'A,B' for relative views).",
                         k,
                     )
                 result.append(float(conf.get(k, 1.0)))
-- 
2.43.0


From 950ba6a9934e546b0e65cc3fe89e576915f81966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:51 +0000
Subject: [PATCH 104/117] fix: a risk parity target met by pure parity is not
 replaced by a higher one

---
 pyvallocation/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 1f3cec4..44f989d 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -1123,7 +1123,7 @@ class RelaxedRiskParity(_BaseOptimization):
             if target_used >= max_return_value - tolerance:
                 target_used = max_return_value - tolerance
                 if min_target is not None:  # clipping never goes below the baseline
-                    target_used = max(target_used, min_target)
+                    target_used = max(target_used, min(min_target, return_target))
 
         unit = _unit(self._theta_sqrt)    # psi, gamma, rho and q are measured in this unit, zeta in its square
         return_unit = _unit(self._mean)
-- 
2.43.0


From 3445afb23911ad4b06c143197d6f3f8b4d00e986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:34 +0000
Subject: [PATCH 105/117] fix: a Sharpe ratio only approached by unlimited
 leverage is refused

---
 pyvallocation/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 44f989d..fb0b6a9 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -559,7 +559,7 @@ class MeanVariance(_FrontierMixin, _BaseOptimization):
 
         y = np.asarray(sol["x"]).ravel()
         y_sum = y.sum()
-        if abs(y_sum) < 1e-12:
+        if y_sum <= 1e-4 * np.abs(y).sum():  # only approached by unlimited leverage
             raise InfeasibleOptimizationError("Max Sharpe portfolio has zero weight sum (degenerate).")
 
         w = y / y_sum
-- 
2.43.0


From c943c45d0c363023b850b233c6be5cbfaad179ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:59 +0000
Subject: [PATCH 106/117] fix: MeanCVaR accepts constraint blocks given as
 lists

---
 pyvallocation/optimization.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index fb0b6a9..de6e8d6 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -636,6 +636,9 @@ class MeanCVaR(_FrontierMixin, _BaseOptimization):
         self._alpha = float(alpha)
         self._has_costs = initial_weights is not None and proportional_costs is not None
         super()._init_constraints(p @ R, G, h, A, b)
+        G, h, A, b = (
+            None if block is None else np.asarray(block, dtype=float) for block in (G, h, A, b)
+        )
 
         base_len = N + 1 + T
         extra_len = 2 * N if self._has_costs else 0
-- 
2.43.0


From 7e79c2a51158e6de9e271e5465f93a8230bd5c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:36 +0000
Subject: [PATCH 107/117] fix: the last frontier point is solvable when the
 maximum return is rounded up

---
 pyvallocation/optimization.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index de6e8d6..2e68898 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -338,7 +338,12 @@ class _FrontierMixin:
             _LOGGER.warning("Frontier collapses to a single point.")
             return first[:, None]
         grid = np.linspace(min_ret, max_ret, num)
-        return np.column_stack([first] + [fn(t) for t in grid[1:]])
+        columns = [first] + [fn(t) for t in grid[1:-1]]
+        try:
+            columns.append(fn(max_ret))
+        except RuntimeError:    # the maximum return is known up to the solver's tolerance only
+            columns.append(fn(max_ret - 1e-7 * _unit(mean)))
+        return np.column_stack(columns)
 
 # =================================================================== #
 # 1.  MEAN-VARIANCE
-- 
2.43.0


From 494c0ccdec9accd826704796ebab7c1713770c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:14 +0000
Subject: [PATCH 108/117] fix: a linear programme on which GLPK's primal
 simplex cycles is answered

---
 pyvallocation/optimization.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 2e68898..9ff79a2 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -95,6 +95,19 @@ class InfeasibleOptimizationError(RuntimeError):
 solvers.options.update({"glpk": {"msg_lev": "GLP_MSG_OFF"}, "show_progress": False})
 _LOGGER: Final = logging.getLogger(__name__)
 
+
+def _solve_lp(c, G, h, A, b) -> dict:
+    """Solve an LP with GLPK; the dual simplex takes over where the primal one cycles."""
+    glpk = solvers.options.get("glpk", {})
+    rows, cols = G.size if G is not None else (0, c.size[0])
+    limited = {"it_lim": 10_000 + 100 * (rows + cols), **glpk}
+    sol = solvers.lp(c, G, h, A, b, solver="glpk", options={**solvers.options, "glpk": limited})
+    if sol["status"] == "unknown":
+        dual = {**limited, "meth": "GLP_DUAL"}
+        sol = solvers.lp(c, G, h, A, b, solver="glpk", options={**solvers.options, "glpk": dual})
+    return sol
+
+
 # ------------------------------------------------------------------ #
 # Helpers
 # ------------------------------------------------------------------ #
@@ -297,9 +310,7 @@ class _BaseOptimization(ABC):
         efficient frontier.
         """
         unit = _unit(self._mean)
-        sol = solvers.lp(
-            self._expected_row.T / unit, self._G, self._h, self._A, self._b, solver="glpk"
-        )
+        sol = _solve_lp(self._expected_row.T / unit, self._G, self._h, self._A, self._b)
         self._assert_optimal(sol, "LP")
         return -sol["primal objective"] * unit
 
@@ -432,7 +443,7 @@ class MeanVariance(_FrontierMixin, _BaseOptimization):
             return {**best, "status": "optimal"}
         if return_target is not None:
             unit = _unit(self._mean)
-            top = solvers.lp(self._expected_row.T / unit, self._G, self._h, self._A, self._b, solver="glpk")
+            top = _solve_lp(self._expected_row.T / unit, self._G, self._h, self._A, self._b)
             if top["status"] == "optimal" and np.isclose(-top["primal objective"], return_target / unit, rtol=1e-9, atol=1e-12):
                 return top
         return attempts[0]
@@ -728,7 +739,7 @@ class MeanCVaR(_FrontierMixin, _BaseOptimization):
             h = matrix([-target]) if h is None else matrix(
                 np.append(np.asarray(h).ravel(), -target)
             )
-        sol = solvers.lp(self._c, G, h, self._A, self._b, solver="glpk")
+        sol = _solve_lp(self._c, G, h, self._A, self._b)
         self._assert_optimal(sol, "LP")
         return np.asarray(sol["x"]).ravel()[: self._I]
 
@@ -1374,13 +1385,12 @@ class RelaxedRiskParity(_BaseOptimization):
             b_lp = np.hstack((1.0, b_user))
 
         unit = _unit(self._mean)
-        sol_lp = solvers.lp(
+        sol_lp = _solve_lp(
             matrix(-self._mean / unit),
             matrix(G_lp),
             matrix(h_lp),
             matrix(A_lp),
             matrix(b_lp),
-            solver="glpk",
         )
         self._assert_optimal(sol_lp, "LP")
         return -sol_lp["primal objective"] * unit
-- 
2.43.0


From b63494f4216ac5d81a984ab70cd4f2a83a8eb0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:12 +0000
Subject: [PATCH 109/117] fix: a projection may name both spellings of the
 simple-return option

---
 pyvallocation/ensembles.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/ensembles.py b/pyvallocation/ensembles.py
index 5971d27..7b654e9 100644
--- a/pyvallocation/ensembles.py
+++ b/pyvallocation/ensembles.py
@@ -1214,7 +1214,9 @@ def _apply_projection(
     if "annualization_factor" in options:
         af = options.pop("annualization_factor")
         mu, sigma = project_mean_covariance(mu, sigma, annualization_factor=af)
-    if options.pop("log_to_simple", False) or options.pop("to_simple", False):
+    log_to_simple = options.pop("log_to_simple", False)
+    to_simple = options.pop("to_simple", False)
+    if log_to_simple or to_simple:
         mu, sigma = log2simple(mu, sigma)
     transform = options.pop("transform", None)
     if transform is not None:
-- 
2.43.0


From a52a53307278c1801c8cb75dcd53f984013bf31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:55 +0000
Subject: [PATCH 110/117] fix: a frontier without any return to gain collapses
 to its least-risk portfolio

---
 pyvallocation/optimization.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 9ff79a2..3a457eb 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -331,6 +331,7 @@ class _FrontierMixin:
         num: int,
         mean: np.ndarray,
         max_ret: float,
+        scale: float,
     ) -> np.ndarray:
         """Interpolate a frontier between minimum-risk and max-return portfolios.
 
@@ -340,12 +341,13 @@ class _FrontierMixin:
             num: Number of portfolios to generate.
             mean: Mean return vector.
             max_ret: Maximum attainable return.
+            scale: Size of the returns around ``mean``; means of scenarios are exact up to its rounding only.
 
         Returns:
             np.ndarray: Weight matrix with shape ``(N, num)``.
         """
         min_ret = float(mean @ first)
-        if num < 2 or np.isclose(min_ret, max_ret, atol=1e-8 * _unit(mean)):
+        if num < 2 or np.isclose(min_ret, max_ret, atol=max(1e-8 * _unit(mean), 1e-13 * scale)):
             _LOGGER.warning("Frontier collapses to a single point.")
             return first[:, None]
         grid = np.linspace(min_ret, max_ret, num)
@@ -512,7 +514,8 @@ class MeanVariance(_FrontierMixin, _BaseOptimization):
         """
         first = self._solve_target(None)
         max_ret = self._max_expected_return()
-        return self._frontier(first, self._solve_target, num_portfolios, self._mean, max_ret)
+        scale = float(np.sqrt(np.max(np.diag(self._cov), initial=0.0)))
+        return self._frontier(first, self._solve_target, num_portfolios, self._mean, max_ret, scale)
 
     def max_sharpe(self, risk_free_rate: float = 0.0) -> OptimizationResult:
         r"""Solve directly for the maximum Sharpe ratio portfolio.
@@ -659,6 +662,7 @@ class MeanCVaR(_FrontierMixin, _BaseOptimization):
         base_len = N + 1 + T
         extra_len = 2 * N if self._has_costs else 0
         unit = _unit(R)    # c and \xi are measured in this unit
+        self._scale = unit
         # objective
         turnover_cost = (
             _linear_turnover_blocks(N, T, initial_weights, proportional_costs)[0] / unit
@@ -757,7 +761,9 @@ class MeanCVaR(_FrontierMixin, _BaseOptimization):
         """
         first = self._solve_target(None)
         max_ret = self._max_expected_return()
-        return self._frontier(first, self._solve_target, num_portfolios, self._mean, max_ret)
+        return self._frontier(
+            first, self._solve_target, num_portfolios, self._mean, max_ret, self._scale
+        )
 
 # =================================================================== #
 # 3.  ROBUST MEAN-VARIANCE (SOCP)
-- 
2.43.0


From e1c7173cf9df6cdce5e550d04e76c1061038f664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:13 +0000
Subject: [PATCH 111/117] fix: weights naming an asset absent from the
 scenarios are refused, not dropped

---
 pyvallocation/utils/performance.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/utils/performance.py b/pyvallocation/utils/performance.py
index 5c1bc23..54ee74d 100644
--- a/pyvallocation/utils/performance.py
+++ b/pyvallocation/utils/performance.py
@@ -65,14 +65,16 @@ def scenario_pnl(weights: WeightsLike, scenarios: ArrayLike) -> ArrayLike:
 
     if isinstance(weights, pd.Series):
         if columns is not None and list(weights.index) != columns:
+            extra = set(weights.index) - set(columns)
             weights = weights.reindex(columns)
-            if weights.isna().any():
+            if extra or weights.isna().any():
                 raise ValueError("Weight labels do not match scenario asset names.")
         w = weights.to_numpy(dtype=float).reshape(-1, 1)
     elif isinstance(weights, pd.DataFrame):
         if columns is not None and list(weights.index) != columns:
+            extra = set(weights.index) - set(columns)
             weights = weights.reindex(columns)
-            if weights.isna().any().any():
+            if extra or weights.isna().any().any():
                 raise ValueError("Weight labels do not match scenario asset names.")
         w = weights.to_numpy(dtype=float)
     else:
@@ -160,6 +162,8 @@ def performance_report(
 
     if isinstance(weights, pd.Series):
         if asset_names is not None and list(weights.index) != asset_names:
+            if set(weights.index) - set(asset_names):
+                raise ValueError("Weight labels do not match scenario asset names.")
             weights = weights.reindex(asset_names)
         if weights.isna().any():
             raise ValueError(
@@ -170,6 +174,8 @@ def performance_report(
         if weights.shape[1] != 1:
             raise ValueError("`weights` must represent a single allocation.")
         if asset_names is not None and list(weights.index) != asset_names:
+            if set(weights.index) - set(asset_names):
+                raise ValueError("Weight labels do not match scenario asset names.")
             weights = weights.reindex(asset_names)
         if weights.isna().any().any():
             raise ValueError(
-- 
2.43.0


From e5d94357c8982528b6b0b910b5cd8c20a4c4df0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:16 +0000
Subject: [PATCH 112/117] fix: cost vectors labelled with other assets are
 refused, not assigned by position

---
 pyvallocation/portfolioapi.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index d59021f..16308de 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -1150,8 +1150,11 @@ class PortfolioWrapper:
             if values is None:
                 return None
             names = self.dist.asset_names
-            if isinstance(values, pd.Series) and names is not None and set(values.index) == set(names):
-                values = values.reindex(names)
+            if isinstance(values, pd.Series) and names is not None:
+                if set(values.index) == set(names):
+                    values = values.reindex(names)
+                elif not isinstance(values.index, pd.RangeIndex):
+                    raise ValueError(f"`{name}` must carry the same labels as the assets.")
             arr = np.asarray(values, dtype=float).ravel()
             if arr.shape != (self.dist.N,):
                 raise ValueError(f"`{name}` must have shape ({self.dist.N},), got {arr.shape}")
-- 
2.43.0


From 5938b6812dbd0b0114489af9843402271552ffb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:12:18 +0000
Subject: [PATCH 113/117] fix: the Herfindahl scenario count refuses improper
 probabilities like the entropy count

---
 pyvallocation/probabilities.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/probabilities.py b/pyvallocation/probabilities.py
index 5704023..944e035 100644
--- a/pyvallocation/probabilities.py
+++ b/pyvallocation/probabilities.py
@@ -214,4 +214,7 @@ def compute_effective_number_scenarios_hhi(probabilities: np.ndarray) -> float:
     Returns:
         float: Herfindahl-based effective number of scenarios.
     """
-    return float(1.0 / np.sum(np.asarray(probabilities, dtype=float).ravel() ** 2))
+    p = np.asarray(probabilities, dtype=float).ravel()
+    if not np.all(np.isfinite(p)) or np.any(p < 0.0) or not np.any(p > 0.0):
+        raise ValueError("Probabilities must be finite and non-negative with positive mass.")
+    return float(1.0 / np.sum(p ** 2))
-- 
2.43.0


From 21e291b5bcb096784ed6f9f3ef25d30b7df889e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:12:22 +0000
Subject: [PATCH 114/117] fix: the capped robust portfolio reports its nominal
 return in simple space like the robust frontier

---
 pyvallocation/portfolioapi.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index 16308de..e1337e5 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -2065,11 +2065,13 @@ class PortfolioWrapper:
             )
             risk_value = float(gamma_sigma_sq)
 
+        mu_r, _ = self._report_mu_cov()
+        nominal_return = float(np.asarray(mu_r, dtype=float) @ np.asarray(result.weights, dtype=float))
         logger.info(
             f"Successfully solved for robust \\gamma-portfolio. "
-            f"Nominal Return: {result.nominal_return:.4f}, Estimation Risk (squared): {risk_value:.4f}"
+            f"Nominal Return: {nominal_return:.4f}, Estimation Risk (squared): {risk_value:.4f}"
         )
-        return w_series, result.nominal_return, risk_value
+        return w_series, nominal_return, risk_value
 
     def make_ensemble_spec(
         self,
-- 
2.43.0


From 2bb08ad9cd6359ef7860efd081e41474bda7a849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:24:08 +0000
Subject: [PATCH 115/117] fix: stress transforms act on a copy of the
 scenarios, not on the caller's data

---
 pyvallocation/stress.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/stress.py b/pyvallocation/stress.py
index 86e2654..5d60705 100644
--- a/pyvallocation/stress.py
+++ b/pyvallocation/stress.py
@@ -204,7 +204,7 @@ def stress_test(
 
     stressed_R = R_arr
     if transform is not None:
-        stressed_R = np.asarray(transform(R_arr), dtype=float)
+        stressed_R = np.asarray(transform(R_arr.copy()), dtype=float)
         if stressed_R.shape != R_arr.shape:
             raise ValueError("`transform` must return an array with the same shape as `scenarios`.")
         if not np.all(np.isfinite(stressed_R)):
-- 
2.43.0


From 6116b17dfac035642176f815267a1335ad96b1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:42:39 +0000
Subject: [PATCH 116/117] fix: exposure stacking solves in units of the
 exposures, so small exposures get the same blend

---
 pyvallocation/ensembles.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/ensembles.py b/pyvallocation/ensembles.py
index 7b654e9..a95d54a 100644
--- a/pyvallocation/ensembles.py
+++ b/pyvallocation/ensembles.py
@@ -200,8 +200,12 @@ def exposure_stacking(
         summed = exposures[:, subset].sum(axis=1)
         linear += (masked @ summed) / max(subset.size, 1)
 
-    qp_P = matrix(2.0 * gram)
-    qp_q = matrix(-2.0 * linear.reshape(-1, 1))
+    # CVXOPT stops on absolute tolerances, so solve in units of the largest exposure product.
+    scale = float(np.max(np.abs(gram)))
+    if not 0.0 < scale < np.inf:
+        scale = 1.0
+    qp_P = matrix(2.0 * gram / scale)
+    qp_q = matrix(-2.0 * linear.reshape(-1, 1) / scale)
     qp_A = matrix(np.ones((1, num_samples)))
     qp_b = matrix(np.array([[1.0]]))
     qp_G = matrix(-np.identity(num_samples))
-- 
2.43.0


From 8b3935d02ee90d48c797af86e57b5cbd69cdb1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:43:58 +0000
Subject: [PATCH 117/117] fix: Black-Litterman refuses more than one source for
 the prior mean

---
 pyvallocation/views.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 776637c..f01e153 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -1421,6 +1421,8 @@ class BlackLittermanProcessor:
             raise ValueError("risk_aversion must be positive.")
         self._tau: float = float(tau)
 
+        if sum(source is not None for source in (pi, market_weights, prior_mean)) > 1:
+            raise ValueError("Provide exactly one of pi, market_weights or prior_mean.")
         if pi is not None:
             self._pi = _aligned(pi, "pi").reshape(-1, 1)
             src = "user \\pi"
-- 
2.43.0

