From 9639de3a355f8b4838a4ccae4fd0363086087452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:26 +0000
Subject: [PATCH 01/20] fix: project a step onto the unitary group when it is
 NOT unitary

The unitary_error_check option projected the update when the check said it was
unitary and left a non-unitary update as it was.
---
 oranssi/opt_tools.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/oranssi/opt_tools.py b/oranssi/opt_tools.py
index a552551..79b3dd2 100644
--- a/oranssi/opt_tools.py
+++ b/oranssi/opt_tools.py
@@ -184,7 +184,7 @@ class LocalLieAlgebraLayer(LieLayer):
                         omega = phi.conj().T @ (pauli @ obs - obs @ pauli) @ phi
                         self.op = omega * pauli
                         U_riemann_approx = ssla.expm(- self.eta / 2 ** self.nqubits * self.op)
-                        if (self.unitary_error_check) and (self._is_unitary(U_riemann_approx)):
+                        if (self.unitary_error_check) and not (self._is_unitary(U_riemann_approx)):
                             U_riemann_approx = self._project_onto_unitary(U_riemann_approx)
                         circuit_unitary = U_riemann_approx @ circuit_unitary
                         self.op.fill(0)
@@ -194,7 +194,7 @@ class LocalLieAlgebraLayer(LieLayer):
                     # omegas = np.array(omegas) /( self.eta/ 2 ** self.nqubits +1e-9)
                     self.op = sum(omegas[i] * full_paulis[i] for i in range(len(full_paulis)))
                     U_riemann_approx = ssla.expm(-self.eta / 2 ** self.nqubits * self.op)
-                    if (self.unitary_error_check) and (self._is_unitary(U_riemann_approx)):
+                    if (self.unitary_error_check) and not (self._is_unitary(U_riemann_approx)):
                         U_riemann_approx = self._project_onto_unitary(U_riemann_approx)
                     circuit_unitary = U_riemann_approx @ circuit_unitary
 
@@ -276,7 +276,7 @@ class CustomDirectionLieAlgebraLayer(LieLayer):
                     omega = phi.conj().T @ (pauli @ obs - obs @ pauli) @ phi
                     self.op = omega * pauli
                     U_riemann_approx = ssla.expm(- self.eta / 2 ** self.nqubits * self.op)
-                    if (self.unitary_error_check) and (self._is_unitary(U_riemann_approx)):
+                    if (self.unitary_error_check) and not (self._is_unitary(U_riemann_approx)):
                         U_riemann_approx = self._project_onto_unitary(U_riemann_approx)
                     circuit_unitary = U_riemann_approx @ circuit_unitary
                     self.op.fill(0)
@@ -288,7 +288,7 @@ class CustomDirectionLieAlgebraLayer(LieLayer):
                 self.op = sum(
                     omegas[i] * pauli for i, pauli in enumerate(self.full_paulis.values()))
                 U_riemann_approx = ssla.expm(-self.eta / 2 ** self.nqubits * self.op)
-                if (self.unitary_error_check) and (self._is_unitary(U_riemann_approx)):
+                if (self.unitary_error_check) and not (self._is_unitary(U_riemann_approx)):
                     U_riemann_approx = self._project_onto_unitary(U_riemann_approx)
                 circuit_unitary = U_riemann_approx @ circuit_unitary
 
@@ -358,7 +358,7 @@ class StochasticLieAlgebraLayer(LieLayer):
             pauli = self.lastate.full_paulis[(self.current_direction, *self.current_qubits)]
             omega = phi.conj().T @ (pauli @ obs - obs @ pauli) @ phi
             U_riemann_approx = ssla.expm(- self.eta / 2 ** self.nqubits * omega * pauli)
-            if (self.unitary_error_check) and (self._is_unitary(U_riemann_approx)):
+            if (self.unitary_error_check) and not (self._is_unitary(U_riemann_approx)):
                 U_riemann_approx = self._project_onto_unitary(U_riemann_approx)
             circuit_unitary = U_riemann_approx @ circuit_unitary
 
-- 
2.43.0


From 9114e60d10d3bd4db487973953f603361a5cce47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:26 +0000
Subject: [PATCH 02/20] fix: report Lie algebra directions from the PennyLane
 observables

Layers that keep their observables as full matrices (local, custom direction,
stochastic) raised AttributeError from get_lie_algebra_directions, and so did
approximate_lie_optimizer(..., return_omegas=True) with them.
---
 oranssi/opt_tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oranssi/opt_tools.py b/oranssi/opt_tools.py
index 79b3dd2..fce64ae 100644
--- a/oranssi/opt_tools.py
+++ b/oranssi/opt_tools.py
@@ -32,6 +32,7 @@ class LieLayer(object):
         self.obs_qnode = qml.QNode(circuit_observable_from_unitary, device)
         self.su_state = None
         self.nqubits = nqubits
+        self.qml_observables = observables
         self.observables = [get_full_operator(obs.matrix, obs.wires, self.nqubits) for obs in
                             observables]
 
@@ -96,7 +97,7 @@ class LieLayer(object):
         Returns:
             Dictionary containing the directions and corresponding SU(2^N) directions.
         """
-        return get_all_su_n_directions(circuit_unitary, self.observables, self.device)
+        return get_all_su_n_directions(circuit_unitary, self.qml_observables, self.device)
 
 
 class LocalLieAlgebraLayer(LieLayer):
-- 
2.43.0


From 82a3f36501ceec12ac299058531e3344911c4b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:26 +0000
Subject: [PATCH 03/20] fix: CustomDirectionLieAlgebraLayer with
 directions=None uses all directions

Without a selection the layer paired every direction with its own key instead
of its matrix and crashed on the first step.
---
 oranssi/opt_tools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/oranssi/opt_tools.py b/oranssi/opt_tools.py
index fce64ae..7080b73 100644
--- a/oranssi/opt_tools.py
+++ b/oranssi/opt_tools.py
@@ -253,6 +253,8 @@ class CustomDirectionLieAlgebraLayer(LieLayer):
                     new_paulis.append(pauli)
             self.paulis = new_paulis
             self.directions = new_directions
+        else:
+            self.paulis = list(self.paulis.values())
         self.full_paulis = dict(zip(self.directions, self.paulis))
         self.observables = [get_full_operator(obs.matrix, obs.wires, self.nqubits) for obs in
                             observables]
-- 
2.43.0


From cbe130212976f463ae78114dc084d16bb0049e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:42 +0000
Subject: [PATCH 04/20] fix: let the SU(4) algebra sample random directions
 again

A leftover `raise NotImplementedError` at the top of the sampler made every
StochasticLieAlgebraLayer call fail.
---
 oranssi/opt_tools.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/oranssi/opt_tools.py b/oranssi/opt_tools.py
index 7080b73..2cbc54d 100644
--- a/oranssi/opt_tools.py
+++ b/oranssi/opt_tools.py
@@ -1160,7 +1160,6 @@ class AlgebraSU4():
         Returns:
 
         """
-        raise NotImplementedError
         idx = np.where(self.qubits_left == 0)[0].tolist()
         # allow SU(4) samples
         if not idx:
-- 
2.43.0


From 1c7a5ea031a1d3d0637d0a54a3cedc0d62da7b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:42 +0000
Subject: [PATCH 05/20] fix: get_commuting_set always returns non-overlapping
 edges of the input

Two colors are not enough when a qubit has more than two edges (crash) or on an
odd cycle (overlapping edges were returned), and networkx may flip an edge, which
then does not exist as a direction of the algebra.
---
 oranssi/circuit_tools.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/oranssi/circuit_tools.py b/oranssi/circuit_tools.py
index ee5dc75..03bbc99 100644
--- a/oranssi/circuit_tools.py
+++ b/oranssi/circuit_tools.py
@@ -186,6 +186,13 @@ def get_commuting_set(edge_list):
         return edge_list
     else:
         g = nx.from_edgelist(edge_list)
-        applyHeuristic(g, 2, 50, 50)
-        edge_coloring = [e for e in g.edges() if g[e[0]][e[1]]['color'] == 0]
+        applyHeuristic(g, max(2, max(d for _, d in g.degree())), 50, 50)
+        # the heuristic may fail to find a proper coloring (e.g. odd cycles), so edges that share a
+        # qubit with an edge that was already selected are skipped. Color 0 has precedence.
+        edge_coloring = []
+        used_qubits = set()
+        for e in sorted(edge_list, key=lambda e: g[e[0]][e[1]]['color']):
+            if used_qubits.isdisjoint(e):
+                edge_coloring.append(e)
+                used_qubits.update(e)
         return edge_coloring
-- 
2.43.0


From f1e73172ea375f521ca0c358d027eab0ef193754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:42 +0000
Subject: [PATCH 06/20] fix: rotosolve rotates with exp(-i eta/2 P) for every
 locality

The closed form for the optimal angle assumes a period of 2 pi in eta. Dividing
the generator by 2**locality breaks this for two and three qubit Pauli words, so
the step did not end at the minimum (and could increase the cost).
---
 oranssi/opt_tools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oranssi/opt_tools.py b/oranssi/opt_tools.py
index 2cbc54d..8342e4c 100644
--- a/oranssi/opt_tools.py
+++ b/oranssi/opt_tools.py
@@ -1291,17 +1291,17 @@ def rotosolve(pauli, observables, obs_qnode, circuit_unitary, nqubits):
             unitary=circuit_unitary,
             observable=o)
     H_p = 0.
-    U_riemann_approx = ssla.expm(-1j * np.pi / 2 * pauli / 2 ** nqubits)
+    U_riemann_approx = ssla.expm(-1j * np.pi / 2 * pauli / 2)
     for o in observables:
         H_p += obs_qnode(
             unitary=U_riemann_approx @ circuit_unitary,
             observable=o)
     H_m = 0.
-    U_riemann_approx = ssla.expm(1j * np.pi / 2 * pauli / 2 ** nqubits)
+    U_riemann_approx = ssla.expm(1j * np.pi / 2 * pauli / 2)
     for o in observables:
         H_m += obs_qnode(
             unitary=U_riemann_approx @ circuit_unitary,
             observable=o)
     eta = -np.pi / 2 - np.arctan2(2 * H_0 - H_p - H_m, H_p - H_m)
-    U_riemann_approx = ssla.expm(-1j * eta * pauli / 2 ** nqubits)
+    U_riemann_approx = ssla.expm(-1j * eta * pauli / 2)
     return U_riemann_approx @ circuit_unitary, eta
-- 
2.43.0


From c7fc5395cc2c1d8c37c407def330a2e5faf2f554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:42 +0000
Subject: [PATCH 07/20] fix: support commute=True for SquaredLieAlgebraLayer in
 approximate_lie_optimizer

The layer needs the optimizer and returns the gates it applied, neither of which
was handled, so the documented mode always crashed.
---
 oranssi/optimizers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/oranssi/optimizers.py b/oranssi/optimizers.py
index f5ab25b..6613dc2 100644
--- a/oranssi/optimizers.py
+++ b/oranssi/optimizers.py
@@ -7,7 +7,7 @@ import itertools as it
 
 from oranssi.circuit_tools import get_full_operator, get_ops_from_qnode, circuit_state_from_unitary, \
     circuit_observable_from_unitary, param_shift_comm
-from oranssi.opt_tools import AdaptVQELayer, LieLayer
+from oranssi.opt_tools import AdaptVQELayer, LieLayer, SquaredLieAlgebraLayer
 
 
 def parameter_shift_optimizer(circuit, params: List, observables: List, device: qml.Device,
@@ -344,6 +344,10 @@ def approximate_lie_optimizer(circuit, params: List, observables: List, device:
         if isinstance(layer, AdaptVQELayer):
             circuit_unitary, params = layer(circuit_unitary, optimizer=parameter_shift_optimizer,
                                             params=params, **kwargs)
+        elif isinstance(layer, SquaredLieAlgebraLayer) and kwargs.get('commute', False):
+            circuit_unitary, gate = layer(circuit_unitary, optimizer=parameter_shift_optimizer,
+                                          **kwargs)
+            gates.append(gate)
         else:
             circuit_unitary = layer(circuit_unitary, **kwargs)
 
-- 
2.43.0


From 77dd9998b577aa6d9a4fe79db706ff582efaebb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:42 +0000
Subject: [PATCH 08/20] fix: AdaptVQELayer does not extend the parameter list
 of the caller

---
 oranssi/opt_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oranssi/opt_tools.py b/oranssi/opt_tools.py
index 8342e4c..281b423 100644
--- a/oranssi/opt_tools.py
+++ b/oranssi/opt_tools.py
@@ -575,7 +575,7 @@ class AdaptVQELayer(LieLayer):
                             qml.PauliRot(params[j][idx], layer[0], wires=(i, i + 1))
                         qml.PauliRot(params[j][-1], layer[0], wires=(0, self.nqubits - 1))
 
-        params_ext.append([0.1 for _ in range(self.nqubits)])
+        params_ext = list(params_ext) + [[0.1 for _ in range(self.nqubits)]]
 
         costs, params_ext = ps_optimizer(circuit_vqe, params_ext, self.observables, self.dev,
                                          return_params=True, eta=0.01, tol=1e-5)
-- 
2.43.0


From 6d85b430ddb35132e67bf5f474334b7a10af58e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:42 +0000
Subject: [PATCH 09/20] fix: exact_lie_optimizer does not perturb after the
 last step

The returned unitary did not belong to the final cost and state when the last
step was stationary.
---
 oranssi/optimizers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/oranssi/optimizers.py b/oranssi/optimizers.py
index 6613dc2..8016edd 100644
--- a/oranssi/optimizers.py
+++ b/oranssi/optimizers.py
@@ -202,6 +202,8 @@ def exact_lie_optimizer(circuit, params: List, observables: List, device: qml.De
         if step > 3:
             if np.isclose(cost_exact[-1], cost_exact[-2], atol=tol):
                 if perturbation:
+                    if step == nsteps_optimizer - 1:
+                        break
                     perturbations.append(step)
                     print(f'Cost difference between steps < {tol}, perturbing at step {step}...')
                     random_matrix = np.random.randn(2 ** nqubits, 2 ** nqubits) * 0.1
-- 
2.43.0


From b8cbc20ab775ce4ff9cacb56057338522c0b7f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:42 +0000
Subject: [PATCH 10/20] fix: get_ops_from_qnode no longer drops state
 preparations silently

They live in the tape but not in its `_ops`, so a circuit that starts with
BasisState or QubitStateVector was optimised from the wrong state. Such operations
have no matrix, which is now reported.
---
 oranssi/circuit_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oranssi/circuit_tools.py b/oranssi/circuit_tools.py
index 03bbc99..12b11a5 100644
--- a/oranssi/circuit_tools.py
+++ b/oranssi/circuit_tools.py
@@ -117,7 +117,7 @@ def get_ops_from_qnode(circuit, params: List, device: qml.Device) -> Tuple[
     qnode.construct([params], {})
     circuit_as_numpy_ops = []
     circuit_as_numpy_wires = []
-    for op in qnode.qtape._ops:
+    for op in qnode.qtape.operations:
         circuit_as_numpy_ops.append(op.matrix)
         circuit_as_numpy_wires.append(op.wires.labels)
     return circuit_as_numpy_ops, circuit_as_numpy_wires
-- 
2.43.0


From 383d82a189a31a222172e39554eb4faaa31454d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:42 +0000
Subject: [PATCH 11/20] fix: state_to_spherical is defined at the poles despite
 rounding

---
 oranssi/plot_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oranssi/plot_utils.py b/oranssi/plot_utils.py
index 0e7c5e6..bf619b0 100644
--- a/oranssi/plot_utils.py
+++ b/oranssi/plot_utils.py
@@ -62,7 +62,7 @@ def state_to_spherical(rho):
     assert np.isclose(np.trace(rho), 1), '`rho` is not trace 1'
     paulis = get_su_2_operators()
     coeffs = [np.trace(rho @ paulis[i]).real for i in range(3)]
-    theta = np.arccos(coeffs[2])
+    theta = np.arccos(np.clip(coeffs[2], -1., 1.))
     phi = np.arctan2(coeffs[1], coeffs[0])
     phi %= (2 * np.pi)
     theta %= (2 * np.pi)
-- 
2.43.0


From 8bb1677355ce175f8a3ad45c4ffe8680b59cfb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:42 +0000
Subject: [PATCH 12/20] fix: plot_su16_directions_separate calls
 get_all_su_n_directions correctly

---
 oranssi/plot_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oranssi/plot_utils.py b/oranssi/plot_utils.py
index bf619b0..1e0c7d4 100644
--- a/oranssi/plot_utils.py
+++ b/oranssi/plot_utils.py
@@ -96,7 +96,7 @@ def change_label_fontsize(ax: plt.Axes, newsize: int):
 def plot_su16_directions_separate(nqubits:int, unitaries, observables, device):
     omegas = []
     for uni in unitaries:
-        omegas.append(get_all_su_n_directions(uni, observables, nqubits, device))
+        omegas.append(get_all_su_n_directions(uni, observables, device))
 
     fig, axs = plt.subplots(2, 2)
     fig.set_size_inches(16, 16)
-- 
2.43.0


From b8df7067cc5d1c236ed7925ddc93be27646bc9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:42 +0000
Subject: [PATCH 13/20] fix: parameter_shift_optimizer validates return_params

---
 oranssi/optimizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oranssi/optimizers.py b/oranssi/optimizers.py
index 8016edd..17df883 100644
--- a/oranssi/optimizers.py
+++ b/oranssi/optimizers.py
@@ -49,7 +49,7 @@ def parameter_shift_optimizer(circuit, params: List, observables: List, device:
     assert (isinstance(return_state, bool)), \
         f'`return_state` must be a boolean, received {return_state}'
     return_params = kwargs.get('return_params', False)
-    assert (isinstance(return_state, bool)), \
+    assert (isinstance(return_params, bool)), \
         f'`return_params` must be a boolean, received {return_params}'
     if return_state:
         def circuit_state(params):
-- 
2.43.0


From 353b104d8082ce587b95055f3a41f411bf4f70fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:42 +0000
Subject: [PATCH 14/20] fix: save_path_creator tolerates concurrent creation of
 the directory

---
 oranssi/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oranssi/utils.py b/oranssi/utils.py
index e94cee0..d01f5f5 100644
--- a/oranssi/utils.py
+++ b/oranssi/utils.py
@@ -118,5 +118,5 @@ def operator_2_norm(R: np.ndarray) -> float:
 def save_path_creator(path, experiment_name):
     save_path = os.path.join(path, experiment_name)
     if not os.path.exists(save_path):
-        os.makedirs(save_path)
+        os.makedirs(save_path, exist_ok=True)
     return save_path
-- 
2.43.0


From 86565ebdea5d77fefb97893d87b46b9f60c890c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:06 +0000
Subject: [PATCH 15/20] fix: PauliMonomial products use the coefficient of the
 monomials

The product was built from the coefficients of the individual Paulis, which are
stale once the coefficient of a monomial has changed (commutator, scalar
multiplication), so nested commutators were wrong. conj() did not update the
coefficient of the monomial either.
---
 oranssi/pauli.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/oranssi/pauli.py b/oranssi/pauli.py
index e5d6ac7..b493f5f 100644
--- a/oranssi/pauli.py
+++ b/oranssi/pauli.py
@@ -133,16 +133,20 @@ class PauliMonomial(object):
         sites_other_unique = set_other_locations - sites_in_common
         # Take the product of the common paulis and add them
         for i in sites_in_common:
-            new_monomial.append(self[self.locations.index(i)] * other[other.locations.index(i)])
+            p, q = self[self.locations.index(i)], other[other.locations.index(i)]
+            new_monomial.append(Pauli(p.alpha, p.gamma) * Pauli(q.alpha, q.gamma))
         # Create new Pauli objects for the unique locations so we don't get reference issues
         for j in sites_self_unique:
             p = self[self.locations.index(j)]
-            new_monomial.append(Pauli(p.alpha, p.gamma, p.coeff))
+            new_monomial.append(Pauli(p.alpha, p.gamma))
         for k in sites_other_unique:
             p = other[other.locations.index(k)]
-            new_monomial.append(Pauli(p.alpha, p.gamma, p.coeff))
+            new_monomial.append(Pauli(p.alpha, p.gamma))
         # creating a new PauliMonomial will automatically sort based on site
-        return PauliMonomial(new_monomial)
+        product = PauliMonomial(new_monomial)
+        # the paulis above only carry the phases, the coefficients are those of the monomials
+        product.coeff = complex(product.coeff) * self.coeff * other.coeff
+        return product
 
     def __eq__(self, other):
         # monomials are equal of all paulis are equal. If they are not of equal length they cannot be compared and
@@ -218,6 +222,7 @@ class PauliMonomial(object):
         # conjugate all paulis in the monomial
         for p in self.monomial:
             p.conj()
+        self.coeff = np.conj(self.coeff)
         return self
 
     def commutes_with(self, operator):
-- 
2.43.0


From 996a75025420282701533be7a6fb93de9dd657ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:06 +0000
Subject: [PATCH 16/20] fix: PauliSum arithmetic leaves its operands unchanged

Sums shared their monomials, so a - b negated b and simplifying a + b changed the
coefficients of a.
---
 oranssi/pauli.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/oranssi/pauli.py b/oranssi/pauli.py
index b493f5f..2f5cf62 100644
--- a/oranssi/pauli.py
+++ b/oranssi/pauli.py
@@ -264,7 +264,8 @@ class PauliSum(object):
             'All PauliMonomials must have the same length, found multiple different length: ' \
             f'{[len(ps) for ps in list_of_pauli_monomials]} ' \
             f'where the tuple indicates (location, number of occurences)'
-        self.pauli_sum = list_of_pauli_monomials
+        # copy the monomials, their coefficients are changed below and by `scalar_mul`
+        self.pauli_sum = [copy.copy(ps) for ps in list_of_pauli_monomials]
         self.simplify()
 
     def __getitem__(self, item):
@@ -308,7 +309,7 @@ class PauliSum(object):
 
     def __sub__(self, other):
         # enable multiplication of monomials
-        other_pauli_sum = copy.copy(other)
+        other_pauli_sum = PauliSum(other.pauli_sum)
         other_pauli_sum.scalar_mul(-1)
         new_pauli_sum = copy.copy(self.pauli_sum) + other_pauli_sum.pauli_sum
         return PauliSum(new_pauli_sum)
-- 
2.43.0


From 6c0e2416322dabe831ed5bdfef4a89fa06aa1e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:06 +0000
Subject: [PATCH 17/20] fix: equal Paulis have equal hashes

Equality ignores the coefficient, the hash did not.
---
 oranssi/pauli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oranssi/pauli.py b/oranssi/pauli.py
index 2f5cf62..cfa44a8 100644
--- a/oranssi/pauli.py
+++ b/oranssi/pauli.py
@@ -84,7 +84,7 @@ class Pauli(object):
 
     def __hash__(self):
         # unique hash representation of the object
-        return hash(repr(self))
+        return hash(self.__repr__(coeff=False))
 
     def tex(self):
         # method access to tex
-- 
2.43.0


From 58a7ff1d1388f114c3967df2433a301172737254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:06 +0000
Subject: [PATCH 18/20] fix: a real PauliMonomial is not smaller than a complex
 one

a < b and b < a were both true, so the order was not an order.
---
 oranssi/pauli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oranssi/pauli.py b/oranssi/pauli.py
index cfa44a8..78f396a 100644
--- a/oranssi/pauli.py
+++ b/oranssi/pauli.py
@@ -180,7 +180,7 @@ class PauliMonomial(object):
             if (~np.isreal(self.coeff) & np.isreal(other.coeff)):
                 return True
             elif (np.isreal(self.coeff) & ~np.isreal(other.coeff)):
-                return True
+                return False
             # if the coefficients are in the same domain, we simply decide by sign.
             else:
                 # can now be either +-a + i0 < +-a' + i0 or 0 + +-ib < 0 + +-ib'
-- 
2.43.0


From d0bf6d536cf4baf1b2355141f4cc84513e3f2a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:06 +0000
Subject: [PATCH 19/20] fix: ZassenhausLayer skips the SU(8) step when there is
 no candidate

Without an SU(8) direction with a nonzero gradient the layer raised
UnboundLocalError, and with a vanishing previous angle it divided by zero.
---
 oranssi/opt_tools.py | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/oranssi/opt_tools.py b/oranssi/opt_tools.py
index 281b423..6ab92b7 100644
--- a/oranssi/opt_tools.py
+++ b/oranssi/opt_tools.py
@@ -816,6 +816,7 @@ class ZassenhausLayer(LieLayer):
             print(self.current_pauli)
             print(omegas_su8)
             print(omegas_su4)
+            B = None
             for k,v in omegas_su8.items():
                 if abs(v)>1e-3:
                     print(k,v)
@@ -831,21 +832,22 @@ class ZassenhausLayer(LieLayer):
             # probs = np.array([omegas_su8[om] for om in omegas_sorted])
             # probs /= np.sum(probs)
             # k_max = omegas_sorted[np.random.choice(list(range(len(omegas_sorted))), p=probs)]
-            omegas_AB = 0
-            # B = omegas_su8_k[k_max]
-            pauli = self.lastates[2].full_paulis[k_max]
-            for oi, obs in enumerate(self.observables_full):
-                omegas_AB += float((phi.conj().T @ (pauli @ obs - obs @ pauli) @ phi).imag[0, 0])
-            omegas_B = -((omegas_AB * 2) / omegas_A)  / omegas_su8_signs[k_max]
-            if np.sign(omegas_B)==np.sign(omegas_su4[omegas_su8_k[k]]):
-                print("SAME SIGN")
-            else:
-                print('DIFFERENT SIGN')
-            U_riemann_approx = ssla.expm(
-                # -1j * self.eta * omegas_su4[B] * self.lastates[1].full_paulis[B])
-                -1j * self.eta * omegas_B / 2**self.nqubits * self.lastates[1].full_paulis[B])
-            circuit_unitary = U_riemann_approx @ circuit_unitary
-            print(omegas_A, omegas_B, omegas_AB)
+            if B is not None and not np.isclose(omegas_A, 0.):
+                omegas_AB = 0
+                # B = omegas_su8_k[k_max]
+                pauli = self.lastates[2].full_paulis[k_max]
+                for oi, obs in enumerate(self.observables_full):
+                    omegas_AB += float((phi.conj().T @ (pauli @ obs - obs @ pauli) @ phi).imag[0, 0])
+                omegas_B = -((omegas_AB * 2) / omegas_A)  / omegas_su8_signs[k_max]
+                if np.sign(omegas_B)==np.sign(omegas_su4[omegas_su8_k[k]]):
+                    print("SAME SIGN")
+                else:
+                    print('DIFFERENT SIGN')
+                U_riemann_approx = ssla.expm(
+                    # -1j * self.eta * omegas_su4[B] * self.lastates[1].full_paulis[B])
+                    -1j * self.eta * omegas_B / 2**self.nqubits * self.lastates[1].full_paulis[B])
+                circuit_unitary = U_riemann_approx @ circuit_unitary
+                print(omegas_A, omegas_B, omegas_AB)
             # omegas_B = 0
             # pauli = self.lastates[1].full_paulis[B]
             # for oi, obs in enumerate(self.observables_full):
@@ -877,7 +879,8 @@ class ZassenhausLayer(LieLayer):
             #     self.observables, self.obs_qnode, circuit_unitary,
             #     len(k_max[0]))
 
-            self.current_pauli = B
+            if B is not None:
+                self.current_pauli = B
             # self.previous_eta = eta
             self.counter += 1
             if self.counter >= self.ratio[1]:
-- 
2.43.0


From c35cc0287b97ee96faa73a19c681b5c4badd7059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:30 +0000
Subject: [PATCH 20/20] fix: reject negative and repeated wires in
 get_full_operator

---
 oranssi/circuit_tools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/oranssi/circuit_tools.py b/oranssi/circuit_tools.py
index 12b11a5..371079c 100644
--- a/oranssi/circuit_tools.py
+++ b/oranssi/circuit_tools.py
@@ -37,6 +37,8 @@ def get_full_operator(op: np.ndarray, wires: Tuple[int, ...], nqubits: int) -> n
     """
     assert max(
         wires) < nqubits, f'Operator is acting on qubit {max(wires)}, but nqubits is {nqubits}'
+    assert min(wires) >= 0, f'Operator is acting on qubit {min(wires)}, which is negative'
+    assert len(set(wires)) == len(wires), f'Operator is acting on repeated qubits, wires = {wires}'
     opsize = int(np.log2(op.shape[0]))
     assert opsize == len(
         wires), f'Operator is shape {op.shape} acting on {opsize} qubits, but wires = {wires}'
-- 
2.43.0

