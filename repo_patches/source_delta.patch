From 708f0754584b9c9ee8c83b4d7dfb855df589249b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:16 +0000
Subject: [PATCH 01/34] fix: use PMAX (not QMAX) as the MW upper bound of
 gen_p_max

Observations of gen_p_max were clipped to the reactive power limit.
---
 gym_anm/simulator/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gym_anm/simulator/simulator.py b/gym_anm/simulator/simulator.py
index 1752905..ca79232 100644
--- a/gym_anm/simulator/simulator.py
+++ b/gym_anm/simulator/simulator.py
@@ -427,7 +427,7 @@ class Simulator(object):
                 }
             if isinstance(dev, Generator) and not dev.is_slack:
                 gen_p_max[dev_id] = {
-                    "MW": (dev.p_min * self.baseMVA, dev.q_max * self.baseMVA),
+                    "MW": (dev.p_min * self.baseMVA, dev.p_max * self.baseMVA),
                     "pu": (dev.p_min, dev.p_max),
                 }
 
-- 
2.43.0


From 0cf09046d7e265354f3cbc4d73abb40dbeb33003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 02/34] fix: convert the PMAX of loads to per-unit

PMIN was divided by baseMVA but PMAX was not.
---
 gym_anm/simulator/components/devices.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gym_anm/simulator/components/devices.py b/gym_anm/simulator/components/devices.py
index 85763ca..90da451 100644
--- a/gym_anm/simulator/components/devices.py
+++ b/gym_anm/simulator/components/devices.py
@@ -139,6 +139,8 @@ class Load(Device):
             raise LoadSpecError(
                 "Trying to create a load with P_max > 0. Loads" " can only withdraw power from the grid."
             )
+        else:
+            self.p_max /= baseMVA  # to p.u.
 
         self.p_min = dev_spec[DEV_H["PMIN"]]
         if self.p_min is None:
-- 
2.43.0


From fbde8e6117ab72b4d29a264509722b87e8c4ca02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 03/34] fix: raise EnvInitializationError after 100 terminal
 initial states

An AttributeError was raised instead (instances have no __name__), and a
valid 100th draw was rejected as well.
---
 gym_anm/envs/anm_env.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gym_anm/envs/anm_env.py b/gym_anm/envs/anm_env.py
index 66fa8fb..623591b 100644
--- a/gym_anm/envs/anm_env.py
+++ b/gym_anm/envs/anm_env.py
@@ -281,10 +281,10 @@ class ANMEnv(gym.Env):
                 warnings.simplefilter("ignore", MatrixRankWarning)
                 init_state_found = self.simulator.reset(self.state)
 
-            if n_init_states == n_init_states_max:
+            if not init_state_found and n_init_states == n_init_states_max:
                 msg = "No non-terminal state found out of %d initial states for " "environment %s" % (
                     n_init_states_max,
-                    self.__name__,
+                    type(self).__name__,
                 )
                 raise EnvInitializationError(msg)
 
-- 
2.43.0


From f0c448ad8fee625004c9925d25198c0e3d654f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 04/34] fix: limit the initial state of charge to the storage
 capacity

An initial value outside [soc_min, soc_max] made the next set-point
projection infeasible.
---
 gym_anm/simulator/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gym_anm/simulator/simulator.py b/gym_anm/simulator/simulator.py
index ca79232..9739417 100644
--- a/gym_anm/simulator/simulator.py
+++ b/gym_anm/simulator/simulator.py
@@ -284,7 +284,7 @@ class Simulator(object):
         soc_idx = 0
         for dev in self.devices.values():
             if isinstance(dev, StorageUnit):
-                dev.soc = soc[soc_idx] / self.baseMVA
+                dev.soc = np.clip(soc[soc_idx] / self.baseMVA, dev.soc_min, dev.soc_max)
                 soc_idx += 1
 
         # 5. Re-construct the state dictionary after modifying the SoC.
-- 
2.43.0


From 8e1dade3432c4acbd296df547bab97cd27dc4280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 05/34] fix: keep the apparent flow of a branch whose active
 flow is exactly 0

sign(0) = 0 discarded the flow, and with it any overload penalty.
---
 gym_anm/simulator/components/branch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gym_anm/simulator/components/branch.py b/gym_anm/simulator/components/branch.py
index e2d1d08..ff32a8c 100644
--- a/gym_anm/simulator/components/branch.py
+++ b/gym_anm/simulator/components/branch.py
@@ -195,4 +195,4 @@ class TransmissionLine(object):
         self.q_to = s_to.imag
 
         # Compute directed apparent power flow.
-        self.s_apparent_max = np.sign(self.p_from) * np.maximum(np.abs(s_from), np.abs(s_to))
+        self.s_apparent_max = np.copysign(np.maximum(np.abs(s_from), np.abs(s_to)), self.p_from)
-- 
2.43.0


From 37ec996698be0783b1a0bf15109e760acc393a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 06/34] fix: report the full branch current magnitude with
 NumPy 2

NumPy 2 changed np.sign of complex numbers to z / |z|, which multiplied
the magnitude by the cosine of the current angle.
---
 gym_anm/simulator/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gym_anm/simulator/simulator.py b/gym_anm/simulator/simulator.py
index 9739417..1d904dd 100644
--- a/gym_anm/simulator/simulator.py
+++ b/gym_anm/simulator/simulator.py
@@ -610,7 +610,7 @@ class Simulator(object):
             branch_s["pu"][(f, t)] = branch.s_apparent_max
             branch_s["MVA"][(f, t)] = branch.s_apparent_max * self.baseMVA
 
-            branch_i_magn["pu"][(f, t)] = np.sign(branch.i_from).real * np.abs(branch.i_from)
+            branch_i_magn["pu"][(f, t)] = np.copysign(np.abs(branch.i_from), branch.i_from.real)
 
             branch_i_ang["rad"][(f, t)] = np.angle(branch.i_from)
             branch_i_ang["degree"][(f, t)] = np.angle(branch.i_from) * 180 / np.pi
-- 
2.43.0


From 4d31ffa37326bb54b5fad02e76eb4c404d790f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 07/34] fix: make the units of branch_i_magn a tuple

The default unit was the first letter of 'pu'.
---
 gym_anm/simulator/components/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gym_anm/simulator/components/constants.py b/gym_anm/simulator/components/constants.py
index 50b9596..ee55977 100644
--- a/gym_anm/simulator/components/constants.py
+++ b/gym_anm/simulator/components/constants.py
@@ -42,7 +42,7 @@ STATE_VARIABLES = {
     "branch_p": ("MW", "pu"),
     "branch_q": ("MVAr", "pu"),
     "branch_s": ("MVA", "pu"),
-    "branch_i_magn": ("pu"),
+    "branch_i_magn": ("pu",),
     "branch_i_ang": ("degree", "rad"),
     "aux": (None,),
 }
-- 
2.43.0


From 837f020182ebbfed67e4ca621c2e4e6ed205c370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 08/34] fix: do not divide by zero when the network collapses
 with gamma=1

---
 gym_anm/envs/anm_env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gym_anm/envs/anm_env.py b/gym_anm/envs/anm_env.py
index 623591b..584c6a5 100644
--- a/gym_anm/envs/anm_env.py
+++ b/gym_anm/envs/anm_env.py
@@ -427,7 +427,7 @@ class ANMEnv(gym.Env):
             r = -(self.e_loss + self.penalty)
         else:
             # Very large reward if a terminal state has been reached.
-            r = -self.costs_clipping[1] / (1 - self.gamma)
+            r = -self.costs_clipping[1] / (1 - self.gamma) if self.gamma < 1 else -np.inf
             self.e_loss = self.costs_clipping[0]
             self.penalty = self.costs_clipping[1]
 
-- 
2.43.0


From 7245fd7cd52dbdb31784c45f3933da8df9bc7cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 09/34] fix: do not overwrite auxiliary variables in previously
 returned states

---
 gym_anm/envs/anm_env.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gym_anm/envs/anm_env.py b/gym_anm/envs/anm_env.py
index 584c6a5..c4ceb81 100644
--- a/gym_anm/envs/anm_env.py
+++ b/gym_anm/envs/anm_env.py
@@ -433,6 +433,7 @@ class ANMEnv(gym.Env):
 
         # 4. Construct the state and observation vector.
         if not self.terminated:
+            self.state = np.array(self.state)  # do not modify a vector already handed out
             for k in range(self.K):
                 self.state[k - self.K] = aux[k]
             self.state = self._construct_state()
-- 
2.43.0


From 4813ad2090236e680cf922d0fc14b3246a361554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 10/34] fix: use float64 for the default space of callable
 observations

The float32 space rejected every float64 observation.
---
 gym_anm/envs/anm_env.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gym_anm/envs/anm_env.py b/gym_anm/envs/anm_env.py
index c4ceb81..bde44b3 100644
--- a/gym_anm/envs/anm_env.py
+++ b/gym_anm/envs/anm_env.py
@@ -296,7 +296,9 @@ class ANMEnv(gym.Env):
 
         # Update the observation space bounds if required.
         if self.observation_space is None:
-            self.observation_space = spaces.Box(low=-np.ones(len(obs)) * np.inf, high=np.ones(len(obs)) * np.inf)
+            self.observation_space = spaces.Box(
+                low=-np.ones(len(obs)) * np.inf, high=np.ones(len(obs)) * np.inf, dtype=np.float64
+            )
             self.observation_N = self.observation_space.shape[0]
 
         err_msg = "Observation %r (%s) invalid." % (obs, type(obs))
-- 
2.43.0


From 46c96860680a2335340326f4c35964a352db936d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:01 +0000
Subject: [PATCH 11/34] fix: solve the power flow for any bus numbering

The solver indexed the admittance matrix by bus ID and everything else by
position, and took the bus at index 0 for the slack bus: accepted networks
with gaps in the bus IDs or with a slack bus that has not the lowest ID
crashed or were solved with mixed-up injections.
---
 gym_anm/simulator/solve_load_flow.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/gym_anm/simulator/solve_load_flow.py b/gym_anm/simulator/solve_load_flow.py
index 92f25ec..5b12787 100644
--- a/gym_anm/simulator/solve_load_flow.py
+++ b/gym_anm/simulator/solve_load_flow.py
@@ -21,29 +21,28 @@ def solve_pfe_newton_raphson(simulator, xtol=1e-5):
     Returns
     -------
     V : numpy.ndarray
-        The (N,) complex bus voltage vector.
+        The (N,) complex bus voltage vector (slack bus first).
     stable : bool
         True if the algorithm has converged for the desired tolerance; False
         otherwise.
     """
 
+    # Order the buses with the slack bus first (as assumed by the solver). Bus
+    # IDs need not be contiguous and the slack bus may have any ID.
+    slack_id = [i for i, bus in simulator.buses.items() if bus.is_slack][0]
+    bus_ids = [slack_id] + [i for i in simulator.buses.keys() if i != slack_id]
+    Y_bus = simulator.Y_bus[bus_ids, :][:, bus_ids]
+
     # Collect P and Q nodal power injections (except slack bus).
-    p, q = [], []
-    for i in range(simulator.N_bus):
-        if i in simulator.buses.keys():
-            if not simulator.buses[i].is_slack:
-                p.append(simulator.buses[i].p)
-                q.append(simulator.buses[i].q)
-        else:
-            p.append(0)
-            q.append(0)
+    p = [simulator.buses[i].p for i in bus_ids[1:]]
+    q = [simulator.buses[i].q for i in bus_ids[1:]]
 
     # Construct initial guess for nodal V.
     v_guess = [0.0] * (simulator.N_bus - 1) + [1.0] * (simulator.N_bus - 1)
     v_guess = np.array(v_guess)
 
     # Solve power flow equations using Netwon-Raphson method.
-    v, n_iter, diff, converged = _newton_raphson_sparse(v_guess, np.array(p), np.array(q), simulator.Y_bus, x_tol=xtol)
+    v, n_iter, diff, converged = _newton_raphson_sparse(v_guess, np.array(p), np.array(q), Y_bus, x_tol=xtol)
 
     # Check if a stable solution has been reached.
     stable = True if converged and diff <= xtol else False
@@ -52,10 +51,11 @@ def solve_pfe_newton_raphson(simulator, xtol=1e-5):
     V = _construct_v_from_guess(v)
 
     # Compute nodal current injections as I = YV.
-    I = np.dot(simulator.Y_bus.toarray(), V)
+    I = np.dot(Y_bus.toarray(), V)
 
     # Update simulator.
-    for i, bus in enumerate(simulator.buses.values()):
+    for i, bus_id in enumerate(bus_ids):
+        bus = simulator.buses[bus_id]
         bus.v = V[i]
         bus.i = I[i]
 
-- 
2.43.0


From e0946c851f2b9584db9f8bf2b2761d393cc775d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:01 +0000
Subject: [PATCH 12/34] fix: do not attribute other injections at the slack bus
 to the slack device

The slack device was given the total injection of its bus, so that devices
sharing the slack bus were counted twice.
---
 gym_anm/simulator/solve_load_flow.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gym_anm/simulator/solve_load_flow.py b/gym_anm/simulator/solve_load_flow.py
index 5b12787..c51a938 100644
--- a/gym_anm/simulator/solve_load_flow.py
+++ b/gym_anm/simulator/solve_load_flow.py
@@ -65,11 +65,13 @@ def solve_pfe_newton_raphson(simulator, xtol=1e-5):
             bus.p = s.real if not np.isnan(s.real) else np.inf
             bus.q = s.imag if not np.isnan(s.imag) else np.inf
 
-    # Update slack device injections.
+    # Update slack device injections (what the other devices connected to the
+    # slack bus do not provide).
     for dev in simulator.devices.values():
         if dev.is_slack:
-            dev.p = simulator.buses[dev.bus_id].p
-            dev.q = simulator.buses[dev.bus_id].q
+            others = [d for d in simulator.devices.values() if d.bus_id == dev.bus_id and d is not dev]
+            dev.p = simulator.buses[dev.bus_id].p - sum(d.p for d in others)
+            dev.q = simulator.buses[dev.bus_id].q - sum(d.q for d in others)
 
     # Compute branch I_{ij}, P_{ij}, and Q_{ij} flows.
     for branch in simulator.branches.values():
-- 
2.43.0


From 66db30dc197131ad0a8c51d04bc015bd01ac96f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:54 +0000
Subject: [PATCH 13/34] fix: use the slack voltage magnitude of the network
 description

The slack bus is documented to be held at VMAX (and its observation bounds
say so), but the power flow always used 1 p.u.
---
 gym_anm/simulator/solve_load_flow.py | 37 +++++++++++++++++-----------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/gym_anm/simulator/solve_load_flow.py b/gym_anm/simulator/solve_load_flow.py
index c51a938..8501e79 100644
--- a/gym_anm/simulator/solve_load_flow.py
+++ b/gym_anm/simulator/solve_load_flow.py
@@ -42,13 +42,16 @@ def solve_pfe_newton_raphson(simulator, xtol=1e-5):
     v_guess = np.array(v_guess)
 
     # Solve power flow equations using Netwon-Raphson method.
-    v, n_iter, diff, converged = _newton_raphson_sparse(v_guess, np.array(p), np.array(q), Y_bus, x_tol=xtol)
+    v_slack = simulator.buses[slack_id].v_slack
+    v, n_iter, diff, converged = _newton_raphson_sparse(
+        v_guess, np.array(p), np.array(q), Y_bus, x_tol=xtol, v_slack=v_slack
+    )
 
     # Check if a stable solution has been reached.
     stable = True if converged and diff <= xtol else False
 
     # Reconstruct complex V nodal vector.
-    V = _construct_v_from_guess(v)
+    V = _construct_v_from_guess(v, v_slack)
 
     # Compute nodal current injections as I = YV.
     I = np.dot(Y_bus.toarray(), V)
@@ -83,7 +86,7 @@ def solve_pfe_newton_raphson(simulator, xtol=1e-5):
     return V, stable
 
 
-def _f(guess, p, q, Y):
+def _f(guess, p, q, Y, v_slack=1.0):
     """
     The function f(x) = 0 to be solved.
 
@@ -102,6 +105,8 @@ def _f(guess, p, q, Y):
         the slack bus.
     Y : scipy.sparse.csc_matrix
         The nodal admittance matrix of shape (N, N) as a sparse matrix.
+    v_slack : float, optional
+        The fixed voltage magnitude of the slack bus.
 
     Returns
     -------
@@ -110,8 +115,8 @@ def _f(guess, p, q, Y):
         F[N-1,...,2(N-1)] the imaginary part of f(x).
     """
 
-    # Construct nodal voltage vector V, setting V_slack = 1+0j.
-    v = _construct_v_from_guess(guess)
+    # Construct nodal voltage vector V, setting V_slack = v_slack+0j.
+    v = _construct_v_from_guess(guess, v_slack)
 
     # Compute the difference between V (YV)^* and the real power injections S.
     s = p + 1j * q
@@ -122,7 +127,7 @@ def _f(guess, p, q, Y):
     return F
 
 
-def _dfdx(guess, Y):
+def _dfdx(guess, Y, v_slack=1.0):
     """
     Compute the Jacobian matrix.
 
@@ -135,6 +140,8 @@ def _dfdx(guess, Y):
         excluded.
     Y : scipy.sparse.csc_matrix
         The nodal admittance matrix of shape (N, N) as a sparse matrix.
+    v_slack : float, optional
+        The fixed voltage magnitude of the slack bus.
 
     Returns
     -------
@@ -142,8 +149,8 @@ def _dfdx(guess, Y):
         The Jacobian matrix as a sparse matrix.
     """
 
-    # Construct nodal voltage vector V, setting V_slack = 1+0j.
-    v = _construct_v_from_guess(guess)
+    # Construct nodal voltage vector V, setting V_slack = v_slack+0j.
+    v = _construct_v_from_guess(guess, v_slack)
 
     index = np.array(range(len(v)))
 
@@ -166,16 +173,16 @@ def _dfdx(guess, Y):
     return J
 
 
-def _construct_v_from_guess(guess):
+def _construct_v_from_guess(guess, v_slack=1.0):
     assert len(guess) % 2 == 0
     n = int(len(guess) / 2)
     v_nonslack = guess[n:] * np.exp(1j * guess[:n])
-    v = np.concatenate((np.array([1 + 0j]), v_nonslack))
+    v = np.concatenate((np.array([v_slack + 0j]), v_nonslack))
 
     return v
 
 
-def _newton_raphson_sparse(v_guess, p, q, Y, x_tol=1e-10, lim_iter=100):
+def _newton_raphson_sparse(v_guess, p, q, Y, x_tol=1e-10, lim_iter=100, v_slack=1.0):
     """
     Solve f(x) = 0 with initial v_guess for x and dfdx(x).
 
@@ -201,6 +208,8 @@ def _newton_raphson_sparse(v_guess, p, q, Y, x_tol=1e-10, lim_iter=100):
         The tolerance to achieve in the solution.
     lim_iter : int
         The maximum number of iterations.
+    v_slack : float, optional
+        The fixed voltage magnitude of the slack bus.
 
     Returns:
     v_guess : numpy.ndarray
@@ -214,13 +223,13 @@ def _newton_raphson_sparse(v_guess, p, q, Y, x_tol=1e-10, lim_iter=100):
     """
 
     n_iter = 0
-    F = _f(v_guess, p, q, Y)
+    F = _f(v_guess, p, q, Y, v_slack)
     diff = norm(F, np.inf)
 
     while diff > x_tol and n_iter < lim_iter:
         n_iter += 1
-        v_guess = v_guess - spsolve(_dfdx(v_guess, Y), F)
-        F = _f(v_guess, p, q, Y)
+        v_guess = v_guess - spsolve(_dfdx(v_guess, Y, v_slack), F)
+        F = _f(v_guess, p, q, Y, v_slack)
         diff = norm(F, np.inf)
 
     converged = False if np.isnan(diff) else True
-- 
2.43.0


From 49e00eb48d299c4e81ffa9a8aa1e57a8744c5f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:26 +0000
Subject: [PATCH 14/34] fix: handle omitted (infinite) power limits of
 generators and storage units

An omitted PMAX, PMIN, QMAX or QMIN is documented to mean infinity, but led
to offsets such as inf - 0 * inf = NaN, hence to NaN injections and a
collapsed network.
---
 gym_anm/simulator/components/devices.py | 34 ++++++++++++++++---------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/gym_anm/simulator/components/devices.py b/gym_anm/simulator/components/devices.py
index 90da451..ab78bb0 100644
--- a/gym_anm/simulator/components/devices.py
+++ b/gym_anm/simulator/components/devices.py
@@ -273,11 +273,11 @@ class Generator(Device):
             self.tau_1 = 0.0
             self.tau_2 = 0.0
         else:
-            self.tau_1 = (self.q_plus - self.q_max) / (self.p_max - self.p_plus)
-            self.tau_2 = (self.q_minus - self.q_min) / (self.p_max - self.p_plus)
+            self.tau_1 = _slope(self.q_plus, self.q_max, self.p_max - self.p_plus)
+            self.tau_2 = _slope(self.q_minus, self.q_min, self.p_max - self.p_plus)
 
-        self.rho_1 = self.q_max - self.tau_1 * self.p_plus
-        self.rho_2 = self.q_min - self.tau_2 * self.p_plus
+        self.rho_1 = _offset(self.q_max, self.tau_1, self.p_plus)
+        self.rho_2 = _offset(self.q_min, self.tau_2, self.p_plus)
 
     def map_pq(self, p, q):
         """
@@ -427,21 +427,21 @@ class StorageUnit(Device):
             self.tau_1 = 0.0
             self.tau_2 = 0.0
         else:
-            self.tau_1 = (self.q_plus - self.q_max) / (self.p_max - self.p_plus)
-            self.tau_2 = (self.q_minus - self.q_min) / (self.p_max - self.p_plus)
+            self.tau_1 = _slope(self.q_plus, self.q_max, self.p_max - self.p_plus)
+            self.tau_2 = _slope(self.q_minus, self.q_min, self.p_max - self.p_plus)
 
-        self.rho_1 = self.q_max - self.tau_1 * self.p_plus
-        self.rho_2 = self.q_min - self.tau_2 * self.p_plus
+        self.rho_1 = _offset(self.q_max, self.tau_1, self.p_plus)
+        self.rho_2 = _offset(self.q_min, self.tau_2, self.p_plus)
 
         if self.p_min == self.p_minus:
             self.tau_3 = 0.0
             self.tau_4 = 0.0
         else:
-            self.tau_3 = (self.q_min - self.q_minus) / (self.p_minus - self.p_min)
-            self.tau_4 = (self.q_max - self.q_plus) / (self.p_minus - self.p_min)
+            self.tau_3 = _slope(self.q_min, self.q_minus, self.p_minus - self.p_min)
+            self.tau_4 = _slope(self.q_max, self.q_plus, self.p_minus - self.p_min)
 
-        self.rho_3 = self.q_min - self.tau_3 * self.p_minus
-        self.rho_4 = self.q_max - self.tau_4 * self.p_minus
+        self.rho_3 = _offset(self.q_min, self.tau_3, self.p_minus)
+        self.rho_4 = _offset(self.q_max, self.tau_4, self.p_minus)
 
         self.soc_min = dev_spec[DEV_H["SOC_MIN"]]
         if self.soc_min is None:
@@ -545,3 +545,13 @@ class StorageUnit(Device):
 
         # Clip the new state of charge to be in [soc_min, soc_max].
         self.soc = np.clip(self.soc, self.soc_min, self.soc_max)
+
+
+def _slope(q_1, q_2, delta_p):
+    """Slope of a constraint on Q (0 if it is flat, possibly at an infinite Q)."""
+    return 0.0 if q_1 == q_2 else (q_1 - q_2) / delta_p
+
+
+def _offset(q, tau, p):
+    """Offset of the constraint on Q of slope tau that goes through (p, q), where p may be infinite if tau is 0."""
+    return q - tau * p if tau != 0.0 else q
-- 
2.43.0


From 561498587915f9980f78ffbfa35841d5dffe14f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:27 +0000
Subject: [PATCH 15/34] fix: make the set-point projection independent of the
 wall clock

By default OSQP chooses how often it adapts its step size from the measured
set-up time, so that the same seed and actions gave different results (in
the last digits, or more when polishing fails) from one run to the next.
A fixed interval makes episodes exactly reproducible.
---
 gym_anm/simulator/components/devices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gym_anm/simulator/components/devices.py b/gym_anm/simulator/components/devices.py
index ab78bb0..dd2b92d 100644
--- a/gym_anm/simulator/components/devices.py
+++ b/gym_anm/simulator/components/devices.py
@@ -300,7 +300,7 @@ class Generator(Device):
         # Define and solve the CVXPY problem.
         x = cp.Variable(2)
         prob = cp.Problem(cp.Minimize(cp.sum_squares(x - point)), [G @ x <= h])
-        prob.solve()
+        prob.solve(solver=cp.OSQP, adaptive_rho_interval=100)
 
         self.p = x.value[0]
         self.q = x.value[1]
@@ -518,7 +518,7 @@ class StorageUnit(Device):
         # Define and solve the CVXPY problem.
         x = cp.Variable(2)
         prob = cp.Problem(cp.Minimize(cp.sum_squares(x - point)), [G @ x <= h])
-        prob.solve()
+        prob.solve(solver=cp.OSQP, adaptive_rho_interval=100)
 
         self.p = x.value[0]
         self.q = x.value[1]
-- 
2.43.0


From 566eafaa408fec7aa49834a13c2bb30f88596e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:00 +0000
Subject: [PATCH 16/34] fix: let the MPC agents use bus IDs and the slack bus
 correctly

The admittance matrix is indexed by bus ID, and the reference angle belongs
to the slack bus, whose position is unrelated to that of the slack device.
---
 gym_anm/agents/mpc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gym_anm/agents/mpc.py b/gym_anm/agents/mpc.py
index 571af71..97235dc 100644
--- a/gym_anm/agents/mpc.py
+++ b/gym_anm/agents/mpc.py
@@ -107,8 +107,7 @@ class MPCAgent(object):
         self.init_soc = cp.Parameter(self.n_des, nonneg=True)
 
         # Define constants.
-        bus_ids = [self.bus_id_mapping[i] for i in self.bus_ids]
-        self.B_bus = simulator.Y_bus.imag[bus_ids, :][:, bus_ids].toarray()
+        self.B_bus = simulator.Y_bus.imag[self.bus_ids, :][:, self.bus_ids].toarray()
         self.branch_rate = [br.rate for br in simulator.branches.values()]
         self.P_gen_min = [g.p_min for g in simulator.devices.values() if isinstance(g, Generator) and not g.is_slack]
         self.P_gen_max = [g.p_max for g in simulator.devices.values() if isinstance(g, Generator) and not g.is_slack]
@@ -298,8 +297,9 @@ class MPCAgent(object):
         constraints += _make_list_le_constraints([-np.pi] * self.n_bus, V_bus_ang)
         constraints += _make_list_le_constraints(V_bus_ang, [np.pi] * self.n_bus)
 
-        # V_angle[0] = 0
-        constraints.append(V_bus_ang[self.dev_id_mapping[self.slack_dev_id]] == 0.0)
+        # V_angle = 0 at the slack bus.
+        slack_bus_id = self.dev_to_bus[self.slack_dev_id]
+        constraints.append(V_bus_ang[self.bus_id_mapping[slack_bus_id]] == 0.0)
 
         # 4. Construct the objective function.
         cost_1 = 0.0
-- 
2.43.0


From c58fe003dba254b4f7e30a7a71754db68cb1a8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:59 +0000
Subject: [PATCH 17/34] fix: let the MPC agents run in networks without loads,
 generators or storage

cvxpy refuses parameters of size zero.
---
 gym_anm/agents/mpc.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/gym_anm/agents/mpc.py b/gym_anm/agents/mpc.py
index 97235dc..ddffb1a 100644
--- a/gym_anm/agents/mpc.py
+++ b/gym_anm/agents/mpc.py
@@ -102,9 +102,12 @@ class MPCAgent(object):
         self.P_dev_vars = []
 
         # Define time-varying parameters.
-        self.P_load_forecast = cp.Parameter((self.n_load, self.planning_steps))
-        self.P_gen_forecast = cp.Parameter((self.n_gen - 1, self.planning_steps), nonneg=True)
-        self.init_soc = cp.Parameter(self.n_des, nonneg=True)
+        # (cvxpy does not support empty parameters: None is used when there are no
+        # devices of a kind).
+        N = self.planning_steps
+        self.P_load_forecast = cp.Parameter((self.n_load, N)) if self.n_load else None
+        self.P_gen_forecast = cp.Parameter((self.n_gen - 1, N), nonneg=True) if self.n_gen > 1 else None
+        self.init_soc = cp.Parameter(self.n_des, nonneg=True) if self.n_des else None
 
         # Define constants.
         self.B_bus = simulator.Y_bus.imag[self.bus_ids, :][:, self.bus_ids].toarray()
@@ -176,8 +179,8 @@ class MPCAgent(object):
         for i in range(self.planning_steps):
 
             # Extract forecasted values for timestep t+1+i.
-            P_load_forecast = self.P_load_forecast[:, i]
-            P_gen_forecast = self.P_gen_forecast[:, i]
+            P_load_forecast = self.P_load_forecast[:, i] if self.n_load else []
+            P_gen_forecast = self.P_gen_forecast[:, i] if self.n_gen > 1 else []
 
             # Create a new single-step optimization problem coupled with the
             # previous time step.
@@ -412,11 +415,14 @@ class MPCAgent(object):
 
         # Update the parameters of the optimization problem with the
         # forecasted values.
-        self.P_load_forecast.value = np.array(P_load_forecasts)
-        self.P_gen_forecast.value = np.array(P_gen_forecasts)
+        if self.n_load:
+            self.P_load_forecast.value = np.array(P_load_forecasts)
+        if self.n_gen > 1:
+            self.P_gen_forecast.value = np.array(P_gen_forecasts)
 
         # Set the initial state of charge of DES units.
-        self.init_soc.value = [simulator.state["des_soc"]["pu"][i] for i in self.des_ids]
+        if self.n_des:
+            self.init_soc.value = [simulator.state["des_soc"]["pu"][i] for i in self.des_ids]
 
 
 def _make_list_eq_constraints(a, b):
-- 
2.43.0


From b04715e444a4d5e387a1dae58feef8ff67c5e5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:42 +0000
Subject: [PATCH 18/34] fix: let the MPC agents run in networks with infinite
 power limits or line ratings

Infinite bounds were passed on to the solver, which aborts on them.
---
 gym_anm/agents/mpc.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/gym_anm/agents/mpc.py b/gym_anm/agents/mpc.py
index ddffb1a..5027040 100644
--- a/gym_anm/agents/mpc.py
+++ b/gym_anm/agents/mpc.py
@@ -312,7 +312,8 @@ class MPCAgent(object):
 
         cost_2 = 0.0
         for p, rate in zip(P_branch, self.branch_rate):
-            cost_2 += cp.maximum(0, cp.abs(p) - self.safety_margin * rate)
+            if not _is_infinite(rate):
+                cost_2 += cp.maximum(0, cp.abs(p) - self.safety_margin * rate)
 
         obj = cost_1 + self.lamb * cost_2
 
@@ -437,11 +438,16 @@ def _make_list_eq_constraints(a, b):
 
 
 def _make_list_le_constraints(a, b):
-    """Create a list of cvxpy less than or equal (<=) equality constraints."""
+    """Create a list of cvxpy less than or equal (<=) constraints (omitting infinite limits)."""
     if isinstance(a, list):
         n = len(a)
     elif isinstance(b, list):
         n = len(b)
     else:
         raise ValueError()
-    return [a[i] <= b[i] for i in range(n)]
+    return [a[i] <= b[i] for i in range(n) if not (_is_infinite(a[i]) or _is_infinite(b[i]))]
+
+
+def _is_infinite(x):
+    """Return True if x is an infinite number (i.e., an omitted limit)."""
+    return np.isscalar(x) and np.isinf(x)
-- 
2.43.0


From 3bbeb23239da49a6a6644b574fe7e6ed108ee73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:42 +0000
Subject: [PATCH 19/34] fix: advance the date by the full time step

Step lengths were truncated to whole minutes (0 for steps under a minute).
---
 gym_anm/envs/anm6_env/anm6.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gym_anm/envs/anm6_env/anm6.py b/gym_anm/envs/anm6_env/anm6.py
index 6b68658..967edf6 100644
--- a/gym_anm/envs/anm6_env/anm6.py
+++ b/gym_anm/envs/anm6_env/anm6.py
@@ -35,7 +35,7 @@ class ANM6(ANMEnv):
 
         # Rendering variables.
         self.network_specs = self.simulator.get_rendering_specs()
-        self.timestep_length = dt.timedelta(minutes=int(60 * delta_t))
+        self.timestep_length = dt.timedelta(hours=delta_t)
         self.date = None
         self.date_init = None
         self.year_count = 0
-- 
2.43.0


From 748f7a61430cb200ec2a002f252df077fec0ec73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:42 +0000
Subject: [PATCH 20/34] fix: reset the year count in reset_date, as documented

---
 gym_anm/envs/anm6_env/anm6.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gym_anm/envs/anm6_env/anm6.py b/gym_anm/envs/anm6_env/anm6.py
index 967edf6..827be52 100644
--- a/gym_anm/envs/anm6_env/anm6.py
+++ b/gym_anm/envs/anm6_env/anm6.py
@@ -144,6 +144,7 @@ class ANM6(ANMEnv):
         """Reset the date displayed in the visualization (and the year count)."""
         self.date_init = date_init
         self.date = date_init
+        self.year_count = 0
 
     def _init_render(self, network_specs):
         """
-- 
2.43.0


From 9bb3693b5e0ccf3063c353229c141bc7959bc078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:17 +0000
Subject: [PATCH 21/34] fix: deliver the initial message once and every update
 to all live viewers

A viewer that connected before the initial message was received never got
it, a viewer that connected during an update could get the update first, and
one dead viewer stopped an update from reaching the viewers after it.
---
 gym_anm/envs/anm6_env/rendering/py/servers.py | 42 ++++++++++++-------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/gym_anm/envs/anm6_env/rendering/py/servers.py b/gym_anm/envs/anm6_env/rendering/py/servers.py
index 4bb4b31..989997a 100644
--- a/gym_anm/envs/anm6_env/rendering/py/servers.py
+++ b/gym_anm/envs/anm6_env/rendering/py/servers.py
@@ -3,6 +3,7 @@ import os
 import sys
 import io
 import socket
+import threading
 from contextlib import redirect_stdout
 from http.server import HTTPServer, SimpleHTTPRequestHandler
 from multiprocessing import Process
@@ -67,6 +68,10 @@ class WsServer(object):
     def _start_server(self):
         """Start the WebSocket server and keep it running."""
 
+        # Each client is handled in its own thread: this lock makes sure that a
+        # client gets the initial message once, and before any update.
+        self._lock = threading.Lock()
+
         # Create websocket server.
         server = WebsocketServer(self.PORT, self.HOST)
         server.set_fn_client_left(self.client_left)
@@ -92,12 +97,11 @@ class WsServer(object):
             The current server.
         """
 
-        id = client["id"]
-        self.clients[id] = client
+        with self._lock:
+            self.clients[client["id"]] = client
 
-        if self.init_message is not None and self.init_client is not None:
-            if id != self.init_client["id"]:
-                server.send_message(client, self.init_message)
+            if self.init_message is not None:
+                self._send(server, client, self.init_message)
 
     def msg_received(self, client, server, msg):
         """
@@ -115,12 +119,24 @@ class WsServer(object):
 
         message = json.loads(msg)
 
-        if message["messageLabel"] == "init":
-            self.init_client = client
-            self.init_message = msg
+        with self._lock:
+            if message["messageLabel"] == "init":
+                self.init_client = client
+                self.init_message = msg
+
+            elif message["messageLabel"] != "update":
+                return
 
-        elif message["messageLabel"] == "update":
-            server.send_message_to_all(msg)
+            # Also send the initial message to the clients already connected.
+            for c in list(self.clients.values()):
+                self._send(server, c, msg)
+
+    def _send(self, server, client, msg):
+        """Send a message to a client, or forget the client if it is gone (to be called with the lock held)."""
+        try:
+            server.send_message(client, msg)
+        except OSError:
+            self.clients.pop(client["id"], None)
 
     def client_left(self, client, server):
         """
@@ -134,11 +150,9 @@ class WsServer(object):
             The current server.
         """
 
-        try:
-            self.clients.pop(client["id"])
-        except:
+        with self._lock:
             if client is not None:
-                print("Error in removing client %s" % client["id"])
+                self.clients.pop(client["id"], None)
 
 
 class HttpServer(object):
-- 
2.43.0


From d1cd128d2061963cafadf67720c697ac0c838c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:17 +0000
Subject: [PATCH 22/34] fix: stop the rendering servers when the rendering
 fails to start

Any failure (timeout, connection error, interrupt, ...) left the processes
of both servers running, with no reference to stop them.
---
 gym_anm/envs/anm6_env/rendering/py/rendering.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/gym_anm/envs/anm6_env/rendering/py/rendering.py b/gym_anm/envs/anm6_env/rendering/py/rendering.py
index 7c45bed..dbd0512 100644
--- a/gym_anm/envs/anm6_env/rendering/py/rendering.py
+++ b/gym_anm/envs/anm6_env/rendering/py/rendering.py
@@ -44,6 +44,20 @@ def start(title, dev_type, p_max, q_max, s_rate, v_magn_min, v_magn_max, soc_max
         The WebSocket server used for message exchanges between the environment
         and the visualization.
     """
+    servers = []
+    try:
+        return _start(
+            servers, title, dev_type, p_max, q_max, s_rate, v_magn_min, v_magn_max, soc_max, costs_range
+        )
+    except BaseException:
+        # Do not leave the server processes running if the rendering failed to start.
+        for server in servers:
+            server.process.terminate()
+        raise
+
+
+def _start(servers, title, dev_type, p_max, q_max, s_rate, v_magn_min, v_magn_max, soc_max, costs_range):
+    """See :py:func:`start()`. The servers started get added to the list `servers`."""
 
     # Create log directory.
     if not os.path.exists(RENDERING_LOGS):
@@ -51,7 +65,9 @@ def start(title, dev_type, p_max, q_max, s_rate, v_magn_min, v_magn_max, soc_max
 
     # Initialize the servers.
     http_server = HttpServer()
+    servers.append(http_server)
     ws_server = WsServer()
+    servers.append(ws_server)
 
     print("\n#######################")
     a = http_server.address + "/" + RENDERING_RELATIVE_PATH
-- 
2.43.0


From 87bca85e0a8509859b8941497565fbe19a6ff203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:17 +0000
Subject: [PATCH 23/34] fix: keep trying to connect to an HTTP server that is
 not listening yet

The waiting loop only handled error pages: if the HTTP server came up after
the WebSocket server, the refused connection made render() fail. Also bound
the time spent waiting for a server that accepts but never answers.
---
 gym_anm/envs/anm6_env/rendering/py/rendering.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gym_anm/envs/anm6_env/rendering/py/rendering.py b/gym_anm/envs/anm6_env/rendering/py/rendering.py
index dbd0512..8d23b01 100644
--- a/gym_anm/envs/anm6_env/rendering/py/rendering.py
+++ b/gym_anm/envs/anm6_env/rendering/py/rendering.py
@@ -82,7 +82,7 @@ def _start(servers, title, dev_type, p_max, q_max, s_rate, v_magn_min, v_magn_ma
     timeout = time.time() + 15
     while True:
         try:
-            ws = create_connection(ws_server.address)
+            ws = create_connection(ws_server.address, timeout=15)
             break
         except ConnectionRefusedError as e:
             if time.time() > timeout:
@@ -94,8 +94,11 @@ def _start(servers, title, dev_type, p_max, q_max, s_rate, v_magn_min, v_magn_ma
     p = os.path.join(http_server.address, RENDERING_RELATIVE_PATH)
     timeout = time.time() + 10
     while True:
-        page = requests.get(p)
-        if page.status_code == 200:
+        try:
+            page = requests.get(p, timeout=10)
+        except requests.exceptions.RequestException:  # not listening yet
+            page = None
+        if page is not None and page.status_code == 200:
             break
         elif time.time() > timeout:
             raise ConnectionError("Connection to HTTP server timeout.")
-- 
2.43.0


From bbe0e91e09f756bbe5052c1daecd6b8641786993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:14 +0000
Subject: [PATCH 24/34] fix: keep track of the rendering servers whatever fails

close() did nothing if the first update had failed, a failed first render()
could not be retried, and a reset() that raised forgot about the running
servers, so that the next render() started new ones.
---
 gym_anm/envs/anm6_env/anm6.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/gym_anm/envs/anm6_env/anm6.py b/gym_anm/envs/anm6_env/anm6.py
index 827be52..fdf294f 100644
--- a/gym_anm/envs/anm6_env/anm6.py
+++ b/gym_anm/envs/anm6_env/anm6.py
@@ -83,15 +83,15 @@ class ANM6(ANMEnv):
                 raise NotImplementedError()
 
             # Render the initial image of the distribution network.
-            self.render_mode = mode
             self.skipped_frames = 0
             rendered_network_specs = ["dev_type", "dev_p", "dev_q", "branch_s", "bus_v", "des_soc"]
             specs = {s: self.network_specs[s] for s in rendered_network_specs}
             self._init_render(specs)
+            self.render_mode = mode
+            self.is_rendering = True
 
             # Render the initial state.
             self.render(mode=mode, skip_frames=skip_frames)
-            self.is_rendering = True
 
         else:
             self.skipped_frames = (self.skipped_frames + 1) % (skip_frames + 1)
@@ -125,10 +125,11 @@ class ANM6(ANMEnv):
         # Save rendering setup to restore after the reset().
         render_mode = self.render_mode
 
-        obs, info = super().reset(seed=seed, options=options)
-
-        # Restore the rendering setup.
-        self.render_mode = render_mode
+        try:
+            obs, info = super().reset(seed=seed, options=options)
+        finally:
+            # Restore the rendering setup.
+            self.render_mode = render_mode
 
         # Reset the date (for rendering).
         self.year_count = 0
@@ -237,4 +238,5 @@ class ANM6(ANMEnv):
                 rendering.close(self.http_server, self.ws_server)
             except AttributeError:
                 pass
+            self.is_rendering = False
         self.render_mode = None
-- 
2.43.0


From 7266f788399b4e911b38eb25746fab24330bfb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:14 +0000
Subject: [PATCH 25/34] fix: only send valid JSON to the visualization

Unclipped costs and collapsed networks produced NaN and Infinity, which the
JSON parser of browsers rejects: such a visualization stayed empty, or never
showed the collapse.
---
 gym_anm/envs/anm6_env/anm6.py                 |  4 ++--
 .../envs/anm6_env/rendering/py/rendering.py   | 20 ++++++++++++-------
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/gym_anm/envs/anm6_env/anm6.py b/gym_anm/envs/anm6_env/anm6.py
index fdf294f..b8583aa 100644
--- a/gym_anm/envs/anm6_env/anm6.py
+++ b/gym_anm/envs/anm6_env/anm6.py
@@ -180,8 +180,8 @@ class ANM6(ANMEnv):
             soc_max.append(network_specs["des_soc"][i]["MWh"][1])
 
         # Set default costs range if not specified.
-        c1 = 100 if self.costs_clipping[0] is None else self.costs_clipping[0]
-        c2 = 10000 if self.costs_clipping[1] is None else self.costs_clipping[1]
+        c1 = 100 if np.isinf(self.costs_clipping[0]) else self.costs_clipping[0]
+        c2 = 10000 if np.isinf(self.costs_clipping[1]) else self.costs_clipping[1]
         costs_range = (c1, c2)
 
         self.http_server, self.ws_server = rendering.start(
diff --git a/gym_anm/envs/anm6_env/rendering/py/rendering.py b/gym_anm/envs/anm6_env/rendering/py/rendering.py
index 8d23b01..182d985 100644
--- a/gym_anm/envs/anm6_env/rendering/py/rendering.py
+++ b/gym_anm/envs/anm6_env/rendering/py/rendering.py
@@ -1,5 +1,6 @@
 import webbrowser
 import json
+import math
 import os
 import requests
 from websocket import create_connection
@@ -166,13 +167,13 @@ def update(ws_address, cur_time, year_count, p, q, s, soc, p_potential, bus_v_ma
             "messageLabel": "update",
             "time": time_array,
             "yearCount": year_count,
-            "pInjections": p,
-            "qInjections": q,
-            "sFlows": s,
-            "socStorage": soc,
-            "pPotential": p_potential,
-            "vMagn": bus_v_magn,
-            "reward": costs,
+            "pInjections": _json_numbers(p),
+            "qInjections": _json_numbers(q),
+            "sFlows": _json_numbers(s),
+            "socStorage": _json_numbers(soc),
+            "pPotential": _json_numbers(p_potential),
+            "vMagn": _json_numbers(bus_v_magn),
+            "reward": _json_numbers(costs),
             "networkCollapsed": network_collapsed,
         }
     )
@@ -184,6 +185,11 @@ def update(ws_address, cur_time, year_count, p, q, s, soc, p_potential, bus_v_ma
     return
 
 
+def _json_numbers(values):
+    """Replace NaN and infinity, which JSON does not support, by None (null)."""
+    return [v if math.isfinite(v) else None for v in values]
+
+
 def close(http_server, ws_server):
     """
     Terminate the parallel processes running the HTTP and WebSocket servers.
-- 
2.43.0


From 1cda81b63d5c18baa9ddcfa1739ca650063ecef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:04 +0000
Subject: [PATCH 26/34] fix: order the reactive power bounds of loads with a
 negative or zero Q/P

A negative ratio swapped the bounds (so that observations were clipped to a
wrong value) and a zero ratio with no PMIN made them NaN.
---
 gym_anm/simulator/components/devices.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gym_anm/simulator/components/devices.py b/gym_anm/simulator/components/devices.py
index dd2b92d..41113bf 100644
--- a/gym_anm/simulator/components/devices.py
+++ b/gym_anm/simulator/components/devices.py
@@ -152,8 +152,10 @@ class Load(Device):
         if self.p_max < self.p_min:
             raise LoadSpecError("Device %d has P_max < P_min." % self.dev_id)
 
-        self.q_max = self.p_max * self.qp_ratio
-        self.q_min = self.p_min * self.qp_ratio
+        # A load with Q/P < 0 injects reactive power; one with Q/P = 0 has no
+        # reactive power, even if its active power is unbounded.
+        q_bounds = [p * self.qp_ratio if self.qp_ratio != 0.0 else 0.0 for p in (self.p_min, self.p_max)]
+        self.q_min, self.q_max = min(q_bounds), max(q_bounds)
 
     def map_pq(self, p):
         """
-- 
2.43.0


From 93dac37ab5b4e977e9c5d9abec31a34bb62aaa86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:04 +0000
Subject: [PATCH 27/34] fix: allow the slack bus to have no VMIN

---
 gym_anm/simulator/components/bus.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gym_anm/simulator/components/bus.py b/gym_anm/simulator/components/bus.py
index c833915..73d429f 100644
--- a/gym_anm/simulator/components/bus.py
+++ b/gym_anm/simulator/components/bus.py
@@ -54,6 +54,10 @@ class Bus(object):
 
         self._check_input_specs()
 
+        # The slack bus may have no lower limit.
+        if self.v_min is None:
+            self.v_min = 0.0
+
         self.v = None
         self.p = None
         self.q = None
-- 
2.43.0


From 3197534fbacd9752efb93150bba41553e29f913f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:54 +0000
Subject: [PATCH 28/34] fix: forget the variables of an interrupted
 optimization in the MPC agents

---
 gym_anm/agents/mpc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gym_anm/agents/mpc.py b/gym_anm/agents/mpc.py
index 5027040..1165f86 100644
--- a/gym_anm/agents/mpc.py
+++ b/gym_anm/agents/mpc.py
@@ -170,6 +170,10 @@ class MPCAgent(object):
             The N-stage convex optimization problem.
         """
 
+        # (Forget the variables of a previous attempt that was interrupted.)
+        self.V_bus_ang_vars = []
+        self.P_dev_vars = []
+
         objective = 0.0
         constraints = []
 
-- 
2.43.0


From f0ba6ee6e276cd0fc20ead472c2e59ba2957eca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:58 +0000
Subject: [PATCH 29/34] fix: stop the servers when the first render call fails
 after they started

---
 gym_anm/envs/anm6_env/anm6.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gym_anm/envs/anm6_env/anm6.py b/gym_anm/envs/anm6_env/anm6.py
index b8583aa..7fccb70 100644
--- a/gym_anm/envs/anm6_env/anm6.py
+++ b/gym_anm/envs/anm6_env/anm6.py
@@ -91,7 +91,12 @@ class ANM6(ANMEnv):
             self.is_rendering = True
 
             # Render the initial state.
-            self.render(mode=mode, skip_frames=skip_frames)
+            try:
+                self.render(mode=mode, skip_frames=skip_frames)
+            except BaseException:
+                # Do not leave the servers running if the first call fails.
+                self.close()
+                raise
 
         else:
             self.skipped_frames = (self.skipped_frames + 1) % (skip_frames + 1)
-- 
2.43.0


From 2502c1c9402a8d1bd968cdc03c5d4bd855629c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:41 +0000
Subject: [PATCH 30/34] fix: do not confuse viewers that connect to the server
 at the same time

---
 gym_anm/envs/anm6_env/rendering/py/servers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gym_anm/envs/anm6_env/rendering/py/servers.py b/gym_anm/envs/anm6_env/rendering/py/servers.py
index 989997a..7a6fa6a 100644
--- a/gym_anm/envs/anm6_env/rendering/py/servers.py
+++ b/gym_anm/envs/anm6_env/rendering/py/servers.py
@@ -98,7 +98,8 @@ class WsServer(object):
         """
 
         with self._lock:
-            self.clients[client["id"]] = client
+            # (client["id"] is not unique if two clients connect at the same time.)
+            self.clients[id(client)] = client
 
             if self.init_message is not None:
                 self._send(server, client, self.init_message)
@@ -136,7 +137,7 @@ class WsServer(object):
         try:
             server.send_message(client, msg)
         except OSError:
-            self.clients.pop(client["id"], None)
+            self.clients.pop(id(client), None)
 
     def client_left(self, client, server):
         """
@@ -152,7 +153,7 @@ class WsServer(object):
 
         with self._lock:
             if client is not None:
-                self.clients.pop(client["id"], None)
+                self.clients.pop(id(client), None)
 
 
 class HttpServer(object):
-- 
2.43.0


From c1c32f6e8a4ee6b267776a765be8002d7c795331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:42 +0000
Subject: [PATCH 31/34] fix: display collapsed networks, whose states have no
 numbers, in the browser

---
 gym_anm/envs/anm6_env/rendering/js/devices.js | 6 +++++-
 gym_anm/envs/anm6_env/rendering/js/reward.js  | 4 ++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/gym_anm/envs/anm6_env/rendering/js/devices.js b/gym_anm/envs/anm6_env/rendering/js/devices.js
index 46df9f3..0561191 100644
--- a/gym_anm/envs/anm6_env/rendering/js/devices.js
+++ b/gym_anm/envs/anm6_env/rendering/js/devices.js
@@ -376,10 +376,14 @@ function initArrowDirection(arrowLabel) {
 
 /**
  * Format numbers to display so that they don't overlap figures.
- * @param {number} number The number to display.
+ * @param {?number} number The number to display (null if there is none, e.g.,
+ * when the network collapsed).
  * @returns {string} The string to display.
  */
 function customNumberPrecision(number) {
+  if (number === null) {
+    return '-';
+  }
   let out;
   let numMagn = Math.abs(number);
   if ((numMagn > 1e10) || (numMagn < 0.1)){
diff --git a/gym_anm/envs/anm6_env/rendering/js/reward.js b/gym_anm/envs/anm6_env/rendering/js/reward.js
index a317dda..dd3218a 100644
--- a/gym_anm/envs/anm6_env/rendering/js/reward.js
+++ b/gym_anm/envs/anm6_env/rendering/js/reward.js
@@ -39,7 +39,7 @@ class RewardSignal {
     svgNetwork.getElementById(svgReward.penaltyRect).setAttribute('width', widthPenalty);
 
     // Set the texts.
-    svgNetwork.getElementById(svgReward.energyLossTxt).innerHTML = (e_loss).toFixed(2);
-    svgNetwork.getElementById(svgReward.penaltyTxt).innerHTML = (penalty).toFixed(2);
+    svgNetwork.getElementById(svgReward.energyLossTxt).innerHTML = (e_loss === null) ? '-' : e_loss.toFixed(2);
+    svgNetwork.getElementById(svgReward.penaltyTxt).innerHTML = (penalty === null) ? '-' : penalty.toFixed(2);
   }
 }
-- 
2.43.0


From f9fb921f10e355280457aad70acd9dd555ff6753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:42 +0000
Subject: [PATCH 32/34] fix: color of lines that are almost unloaded in the
 browser

---
 gym_anm/envs/anm6_env/rendering/js/devices.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gym_anm/envs/anm6_env/rendering/js/devices.js b/gym_anm/envs/anm6_env/rendering/js/devices.js
index 0561191..5949dad 100644
--- a/gym_anm/envs/anm6_env/rendering/js/devices.js
+++ b/gym_anm/envs/anm6_env/rendering/js/devices.js
@@ -216,7 +216,7 @@ class TransmissionLine {
 
     // Compute the % to be displayed next to the bar.
     let percentage = 100 * (current_magn - this.iMin) / (this.iMax - this.iMin);
-    let barColor = this.colorGradient[Math.round(Math.min(100, percentage)) - 1];
+    let barColor = this.colorGradient[Math.max(0, Math.round(Math.min(100, percentage)) - 1)];
 
     // Update the height and color of the bar.
     svgNetwork.getElementById(this.iCurrentRect).setAttribute('height', barHeight);
-- 
2.43.0


From 7760d5796b41709df24408ab99df02ca675f12ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:51 +0000
Subject: [PATCH 33/34] fix: let each page of the visualization connect to its
 own environment

The page index.html is shared by all environments: opening (or reloading) the
page of one showed the environment rendered last, or nothing once the latter
was closed.
---
 gym_anm/envs/anm6_env/rendering/index.html      |  2 +-
 gym_anm/envs/anm6_env/rendering/py/rendering.py | 10 +++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/gym_anm/envs/anm6_env/rendering/index.html b/gym_anm/envs/anm6_env/rendering/index.html
index d459269..ac91028 100644
--- a/gym_anm/envs/anm6_env/rendering/index.html
+++ b/gym_anm/envs/anm6_env/rendering/index.html
@@ -2,7 +2,7 @@
 <html>
 <head>
     <link rel="stylesheet" href="css/styles.css">
-    <script>var wsServerAddress = "ws://127.0.0.1:9001/";</script>
+    <script>var wsServerAddress = new URLSearchParams(window.location.search).get("ws") || "ws://127.0.0.1:9001/";</script>
     <script src="js/init.js"></script>
     <script src="js/devices.js"></script>
     <script src="js/graph.js"></script>
diff --git a/gym_anm/envs/anm6_env/rendering/py/rendering.py b/gym_anm/envs/anm6_env/rendering/py/rendering.py
index 182d985..72bcabe 100644
--- a/gym_anm/envs/anm6_env/rendering/py/rendering.py
+++ b/gym_anm/envs/anm6_env/rendering/py/rendering.py
@@ -70,8 +70,12 @@ def _start(servers, title, dev_type, p_max, q_max, s_rate, v_magn_min, v_magn_ma
     ws_server = WsServer()
     servers.append(ws_server)
 
+    # Several environments may be rendered at the same time: the URL tells the page
+    # which WebSocket server to connect to.
+    query = "?ws=" + ws_server.address
+
     print("\n#######################")
-    a = http_server.address + "/" + RENDERING_RELATIVE_PATH
+    a = http_server.address + "/" + RENDERING_RELATIVE_PATH + query
     print("Rendering the environment at : " + a)
     print("#######################\n")
 
@@ -92,7 +96,7 @@ def _start(servers, title, dev_type, p_max, q_max, s_rate, v_magn_min, v_magn_ma
     # Open a new browser window to display the visualization. Keep trying until
     # the status page becomes == 200 (i.e., the server is running). Timeout after
     # 10 seconds.
-    p = os.path.join(http_server.address, RENDERING_RELATIVE_PATH)
+    p = os.path.join(http_server.address, RENDERING_RELATIVE_PATH) + query
     timeout = time.time() + 10
     while True:
         try:
@@ -215,7 +219,7 @@ def write_html(address):
 <html>
 <head>
     <link rel="stylesheet" href="css/styles.css">
-    <script>var wsServerAddress = "{}";</script>
+    <script>var wsServerAddress = new URLSearchParams(window.location.search).get("ws") || "{}";</script>
     <script src="js/init.js"></script>
     <script src="js/devices.js"></script>
     <script src="js/graph.js"></script>
-- 
2.43.0


From 08c98a4c9992bacaa9b6f9ecb025cb1596a331e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:42 +0000
Subject: [PATCH 34/34] fix: do not send the state to another environment if
 the rendering server died

The port of a dead server may have been taken by the server of an environment
rendered later.
---
 gym_anm/envs/anm6_env/anm6.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gym_anm/envs/anm6_env/anm6.py b/gym_anm/envs/anm6_env/anm6.py
index 7fccb70..d1623ba 100644
--- a/gym_anm/envs/anm6_env/anm6.py
+++ b/gym_anm/envs/anm6_env/anm6.py
@@ -219,6 +219,10 @@ class ANM6(ANMEnv):
             True if no load flow solution is found (possibly infeasible); False
             otherwise.
         """
+        # If the server died, its port may now belong to another environment.
+        if self.ws_server.process.exitcode is not None:
+            raise ConnectionRefusedError("The WebSocket server of the rendering is not running anymore.")
+
         rendering.update(
             self.ws_server.address,
             self.date,
-- 
2.43.0

