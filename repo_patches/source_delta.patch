From b718e466840c17bd73649b07386b55ec1bccb632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:56:36 +0000
Subject: [PATCH 01/25] fix: count circuit nodes over all edges

The node count was taken from the lexicographically largest edge only, so a
circuit with edges such as (0, 3) and (1, 2) was built with too few nodes.
---
 SQcircuit/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SQcircuit/circuit.py b/SQcircuit/circuit.py
index 4baeb78..c594c54 100755
--- a/SQcircuit/circuit.py
+++ b/SQcircuit/circuit.py
@@ -296,7 +296,7 @@ class Circuit:
         self.loops: List[Loop] = []
 
         # number of nodes without ground
-        self.n: int = max(max(self.elements))
+        self.n: int = max(max(edge) for edge in self.elements)
 
         # number of branches that contain junctions without a parallel inductor.
         self.num_jun_without_ind: int = 0
-- 
2.43.0


From cf865d0cb398171bc931f1a8a7358d6d707deb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:56:36 +0000
Subject: [PATCH 02/25] fix: call the existing noise setter in
 Circuit.set_charge_noise

The method called a name that Charge does not define and always raised
AttributeError.
---
 SQcircuit/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SQcircuit/circuit.py b/SQcircuit/circuit.py
index c594c54..e3739be 100755
--- a/SQcircuit/circuit.py
+++ b/SQcircuit/circuit.py
@@ -1419,7 +1419,7 @@ class Circuit:
         if mode - 1 not in self.charge_islands:
             raise ValueError('The specified mode is not a charge mode.')
 
-        self.charge_islands[mode - 1].setNoise(amp)
+        self.charge_islands[mode - 1].set_noise(amp)
 
     def _get_op_dims(self) -> List[list]:
         """Return the operator dims related to ``Qutip.Qobj``."""
-- 
2.43.0


From 2b478a4c48aa1d8747597e888413805b1c52e08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:56:36 +0000
Subject: [PATCH 03/25] fix: store sweep results at the grid point being
 computed

Indexing with a tuple inside the slice selected several columns of the first
grid axis, so sweeps over two or more parameters failed.
---
 SQcircuit/sweep.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SQcircuit/sweep.py b/SQcircuit/sweep.py
index 753812d..51f517f 100755
--- a/SQcircuit/sweep.py
+++ b/SQcircuit/sweep.py
@@ -91,7 +91,7 @@ class Sweep(SQdata):
                 loops[i].set_flux(grid[i][ind])
 
             evec, _ = self.cr.diag(self.numEig)
-            self.efreq[:, indices] = evec.reshape(self.efreq[:, indices].shape)
+            self.efreq[(slice(None), *indices)] = evec
             if 'loss' in self.properties:
                 for dec_type in self.dec.keys():
                     self.dec[dec_type][indices] = \
@@ -131,7 +131,7 @@ class Sweep(SQdata):
                 self.cr.set_charge_offset(mode=modes[i], ng=grid[i][ind])
 
             evec, _ = self.cr.diag(self.numEig)
-            self.efreq[:, indices] = evec.reshape(self.efreq[:, indices].shape)
+            self.efreq[(slice(None), *indices)] = evec
             if 'loss' in self.properties:
                 for dec_type in self.dec.keys():
                     self.dec[dec_type][indices] = \
-- 
2.43.0


From c0549b4888bd3849de022ffaa5e7dfaaef8f1516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:56:36 +0000
Subject: [PATCH 04/25] fix: drop the columns of removed modes from R and S

Uncoupled modes were deleted from the transformed matrices only. Coupling
operators and derivatives then combined the remaining mode operators with the
columns of other modes. coord_transform uses inv(R) = S^T and inv(S) = R^T.
---
 SQcircuit/circuit.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/SQcircuit/circuit.py b/SQcircuit/circuit.py
index e3739be..525620e 100755
--- a/SQcircuit/circuit.py
+++ b/SQcircuit/circuit.py
@@ -853,6 +853,9 @@ class Circuit:
         self.n = self.n - len(unc_indices)
 
         # remove the uncoupled modes
+        self.R = np.delete(self.R, unc_indices, axis=1)
+        self.S = np.delete(self.S, unc_indices, axis=1)
+
         self.cInvTrans = np.delete(self.cInvTrans, unc_indices, axis=0)
         self.cInvTrans = np.delete(self.cInvTrans, unc_indices, axis=1)
 
@@ -2138,9 +2141,9 @@ class Circuit:
         """
         var_type = var_type.lower()
         if var_type == 'charge':
-            return np.linalg.inv(self.R)
+            return self.S.T
         elif var_type == 'flux':
-            return np.linalg.inv(self.S)
+            return self.R.T
         else:
             raise ValueError("The input must be either 'charge' or 'flux'.")
 
-- 
2.43.0


From 1863fba873e3c31b7e9c303127aa1c9e35940308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:56:36 +0000
Subject: [PATCH 05/25] fix: let Circuit.update handle circuits with removed
 modes

update() rebuilt the node matrices with the reduced mode count and failed with
IndexError. Start again from the node count and remove the uncoupled modes.
---
 SQcircuit/circuit.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/SQcircuit/circuit.py b/SQcircuit/circuit.py
index 525620e..d33c4c4 100755
--- a/SQcircuit/circuit.py
+++ b/SQcircuit/circuit.py
@@ -407,6 +407,8 @@ class Circuit:
 
         self._parameters = OrderedDict()
 
+        self.n = max(max(edge) for edge in self.elements)
+
         self.C, self.L, self.W, self.B = self._get_LCWB()
         self.R, self.S = np.eye(self.n), np.eye(self.n)
         self.cInvTrans, self.lTrans, self.wTrans = (
@@ -417,6 +419,9 @@ class Circuit:
         self.omega = np.zeros(self.n)
         self._transform_hamil()
 
+        if self._is_junction_in_circuit() and get_optim_mode() == False:
+            self._update_nmodes_remove_uncoupled_modes()
+
         self._memory_ops: Dict[
             str, Union[List[Qobj], List[List[Qobj]], dict]
         ] = {
-- 
2.43.0


From 06cd5b62dfe7296ad04fd72bc42acbb540c0e296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:56:36 +0000
Subject: [PATCH 06/25] fix: allow Circuit.update before truncation numbers are
 set

Setting parameters on a circuit without truncation numbers raised IndexError
while building operators that do not exist yet.
---
 SQcircuit/circuit.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/SQcircuit/circuit.py b/SQcircuit/circuit.py
index d33c4c4..a33da12 100755
--- a/SQcircuit/circuit.py
+++ b/SQcircuit/circuit.py
@@ -437,9 +437,10 @@ class Circuit:
             'ind_hamil': {},  # list of w^T*phi that appears in Hamiltonian
         }
 
-        self._build_op_memory()
-        self._LC_hamil = self._get_LC_hamil()
-        self._build_exp_ops()
+        if len(self.m) != 0:
+            self._build_op_memory()
+            self._LC_hamil = self._get_LC_hamil()
+            self._build_exp_ops()
 
         self._efreqs = sqf.array([])
         self._evecs = []
-- 
2.43.0


From 5f835d652f33b8a88c112a2ac475a7b2992da041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:56:36 +0000
Subject: [PATCH 07/25] fix: offset system nodes by the node count of each
 circuit

The mode count can be smaller than the node count when uncoupled modes were
removed, which placed the coupling capacitor at the wrong node.
---
 SQcircuit/systems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SQcircuit/systems.py b/SQcircuit/systems.py
index 1321f17..e9efac5 100755
--- a/SQcircuit/systems.py
+++ b/SQcircuit/systems.py
@@ -122,7 +122,7 @@ class System:
         for circ in self.circuits:
             if circ == cr:
                 break
-            N += circ.n
+            N += circ.C.shape[0]
 
         return N+i-1
 
-- 
2.43.0


From 24fd90926f67ce5c3542ac680ef90a1ec02397f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:56:36 +0000
Subject: [PATCH 08/25] fix: replace element capacitors and shared elements in
 safecopy

A junction or inductor whose own capacitor requires gradient made safecopy,
and therefore diag, fail with KeyError. An element placed on two edges was
copied twice.
---
 SQcircuit/circuit.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/SQcircuit/circuit.py b/SQcircuit/circuit.py
index a33da12..76d47cc 100755
--- a/SQcircuit/circuit.py
+++ b/SQcircuit/circuit.py
@@ -655,6 +655,9 @@ class Circuit:
             new_elements = defaultdict(list)
             for edge in self.elements:
                 for el in self.elements[edge]:
+                    if el in replacement_dict:
+                        new_elements[edge].append(replacement_dict[el])
+                        continue
                     new_el = copy(el)
                     new_el.internal_value = el.internal_value.detach().clone()
                     # Need to also replace loops associated with circuit
@@ -664,6 +667,14 @@ class Circuit:
                         for loop in el.loops:
                             new_loops.append(replacement_dict[loop])
                         new_el.loops = new_loops
+                        # The same holds for the capacitor of the element.
+                        if el.cap not in replacement_dict:
+                            new_cap = copy(el.cap)
+                            new_cap.internal_value = (
+                                el.cap.internal_value.detach().clone()
+                            )
+                            replacement_dict[el.cap] = new_cap
+                        new_el.cap = replacement_dict[el.cap]
                     new_elements[edge].append(new_el)
 
                     replacement_dict[el] = new_el
-- 
2.43.0


From d2627163a281ab7343f257da32cf519f7ed7d40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:56:36 +0000
Subject: [PATCH 09/25] fix: keep eigensystem in safecopy with the NumPy engine

save_eigs=True called detach() on NumPy arrays and lists.
---
 SQcircuit/circuit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/SQcircuit/circuit.py b/SQcircuit/circuit.py
index 76d47cc..e7365a3 100755
--- a/SQcircuit/circuit.py
+++ b/SQcircuit/circuit.py
@@ -726,7 +726,9 @@ class Circuit:
                         )
 
         # Remove old eigenvectors/values, if desired
-        if save_eigs:
+        if save_eigs and not get_optim_mode():
+            pass
+        elif save_eigs:
             new_circuit._efreqs = self._efreqs.detach().clone()
             new_circuit._evecs = self._evecs.detach().clone()
         else:
-- 
2.43.0


From 0a18dddda9eadbbc52cfcc10c5a0520609761c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:56:36 +0000
Subject: [PATCH 10/25] fix: allow description of a copied circuit

safecopy replaced the description dictionary by None, so description() on the
copy failed.
---
 SQcircuit/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SQcircuit/circuit.py b/SQcircuit/circuit.py
index e7365a3..918fde6 100755
--- a/SQcircuit/circuit.py
+++ b/SQcircuit/circuit.py
@@ -737,7 +737,7 @@ class Circuit:
 
         # Delete the `.descrip_vars`, because bug in the `ExplicitSymbol` class
         # prevents native `deepcopy`ing.
-        new_circuit.descrip_vars = None
+        new_circuit.descrip_vars = {}
 
         # Deepcopy the whole thing, now that problematic attributes have been
         # explicitly taken care of.
-- 
2.43.0


From e662e6c0762e268cc618f8e93007c17589ee7894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:56:36 +0000
Subject: [PATCH 11/25] fix: select linearly independent columns

Singular values are not attached to columns, so the selection always kept the
first columns even when they were dependent. Valid circuits were rejected or
never finished.
---
 SQcircuit/functions.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/SQcircuit/functions.py b/SQcircuit/functions.py
index e5d6258..a36d50c 100755
--- a/SQcircuit/functions.py
+++ b/SQcircuit/functions.py
@@ -324,11 +324,13 @@ def remove_dependent_columns(matrix, tol=1e-5):
     # first remove the zero columns from the matrix
     no_zero_col_matrix = remove_zero_columns(matrix)
 
-    # Perform SVD
-    _, s, _ = np.linalg.svd(no_zero_col_matrix)
-
-    # Identify columns with singular values above tolerance
-    independent_columns = np.where(np.abs(s) > tol)[0]
+    # Keep each column that increases the rank of the columns kept so far
+    independent_columns = []
+    for i in range(no_zero_col_matrix.shape[1]):
+        columns = independent_columns + [i]
+        rank = np.linalg.matrix_rank(no_zero_col_matrix[:, columns], tol=tol)
+        if rank == len(columns):
+            independent_columns = columns
 
     # Reconstruct matrix with only independent columns
     reduced_matrix = no_zero_col_matrix[:, independent_columns]
-- 
2.43.0


From 8e1d59f5f730a45abd1d1e6371b4670a653dc82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:56:36 +0000
Subject: [PATCH 12/25] fix: transform the capacitance derivative to mode
 coordinates

The second derivative with respect to gate charge combined mode charge
operators with node coordinates, which gave wrong charge dephasing gradients.
---
 SQcircuit/torch_extensions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SQcircuit/torch_extensions.py b/SQcircuit/torch_extensions.py
index 4c918cd..f3d563e 100755
--- a/SQcircuit/torch_extensions.py
+++ b/SQcircuit/torch_extensions.py
@@ -482,7 +482,7 @@ def partial_squared_H_ng(
         return 0
 
     cInv = np.linalg.inv(sqf.to_numpy(cr.C))
-    A = cInv @ cr.partial_mats[grad_el] @ cInv
+    A = cr.R.T @ cInv @ cr.partial_mats[grad_el] @ cInv @ cr.R
 
     op = 0
     for j in range(cr.n):
-- 
2.43.0


From 4df3cee8a1b07b4bae25c180ae2c88c5d8a1c7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:56:36 +0000
Subject: [PATCH 13/25] fix: scale the loop noise amplitude in Loop.set_noise

The constructor stores the amplitude times 2 pi. The setter did not.
---
 SQcircuit/elements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SQcircuit/elements.py b/SQcircuit/elements.py
index 3225924..c4867e4 100755
--- a/SQcircuit/elements.py
+++ b/SQcircuit/elements.py
@@ -672,7 +672,7 @@ class Loop(CircuitComponent):
         self.internal_value = value * 2 * np.pi
 
     def set_noise(self, A: float) -> None:
-        self.A = A
+        self.A = A * 2 * np.pi
 
     def add_index(self, index):
         self.indices.append(index)
-- 
2.43.0


From bb7cf43a85c5288450c6715843f14fc6a9df741c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:56:52 +0000
Subject: [PATCH 14/25] fix: describe the coupling of two charge modes with
 both operators

The printed Hamiltonian used the number operator of the first mode twice.
---
 SQcircuit/symbolic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SQcircuit/symbolic.py b/SQcircuit/symbolic.py
index fde80de..4c52987 100755
--- a/SQcircuit/symbolic.py
+++ b/SQcircuit/symbolic.py
@@ -109,7 +109,7 @@ def charge_mode_hamil(coeff_dict, do_sum=True) -> Expr:
     hamil = 0
     for i in range(coeff_dict['har_dim'], coeff_dict['n_modes']):
         for j in range(i, coeff_dict['n_modes']):
-            hamil += EC(i+1,j+1) * (n(i+1) - ng(i+1)) * (n(i+1) - ng(j+1))
+            hamil += EC(i+1,j+1) * (n(i+1) - ng(i+1)) * (n(j+1) - ng(j+1))
 
     if do_sum:
         return hamil
-- 
2.43.0


From 25a694b80dea127e810c501f8fa7d8d6c3a5d635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:56:52 +0000
Subject: [PATCH 15/25] fix: name the unsupported operator in the error of
 Circuit.op

The message was missing the f prefix.
---
 SQcircuit/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SQcircuit/circuit.py b/SQcircuit/circuit.py
index 918fde6..fa49745 100755
--- a/SQcircuit/circuit.py
+++ b/SQcircuit/circuit.py
@@ -1955,7 +1955,7 @@ class Circuit:
             else:
                 return self._memory_ops['sin_half'][el, b_id]
         else:
-            raise ValueError('The operator \'{typ}\' is not supported.')
+            raise ValueError(f'The operator \'{typ}\' is not supported.')
 
     def _diag_np(
         self,
-- 
2.43.0


From cbaff8011f3933ac9749d591167488b64fefaffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:56:52 +0000
Subject: [PATCH 16/25] fix: evaluate high harmonic levels with the Hermite
 polynomials

The branch for level numbers of 250 and above used a formula that is wrong by
orders of magnitude, and hyperu is not accurate in that range. Values that
overflow are still recomputed with mpmath.
---
 SQcircuit/circuit.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/SQcircuit/circuit.py b/SQcircuit/circuit.py
index fa49745..6dfd392 100755
--- a/SQcircuit/circuit.py
+++ b/SQcircuit/circuit.py
@@ -17,7 +17,7 @@ import mpmath
 from numpy import ndarray
 from qutip import Qobj
 from scipy.linalg import sqrtm, block_diag
-from scipy.special import eval_hermitenorm, hyperu
+from scipy.special import eval_hermitenorm
 from scipy.sparse.linalg import ArpackNoConvergence
 
 from torch import Tensor
@@ -2286,16 +2286,9 @@ class Circuit:
                         + 0.5 * np.log(unt.Phi0)
                     )
 
-                    if n < 250:
-                        term_hermitenorm = eval_hermitenorm(n, np.sqrt(2) * phi_list[mode] * unt.Phi0 / x0)
-                        term_hermite_signs = np.where(term_hermitenorm != 0, np.sign(term_hermitenorm), 0)
-                        term_hermitenorm_log = np.where(term_hermitenorm != 0, np.log(np.abs(term_hermitenorm)), 0)
-                    else:
-                        term_hyper = hyperu(-0.5 * n,
-                                            -0.5,
-                                            (phi_list[mode] * unt.Phi0 / x0)**2)
-                        term_hermite_signs = np.where(term_hyper != 0, np.power(np.sign(phi_list[mode]), n), 0)
-                        term_hermitenorm_log = np.where(term_hyper != 0, -(n/2) * np.log(2) * np.log(np.abs(term_hyper)), 0)
+                    term_hermitenorm = eval_hermitenorm(n, np.sqrt(2) * phi_list[mode] * unt.Phi0 / x0)
+                    term_hermite_signs = np.where(term_hermitenorm != 0, np.sign(term_hermitenorm), 0)
+                    term_hermitenorm_log = np.where(term_hermitenorm != 0, np.log(np.abs(term_hermitenorm)), 0)
 
                     # Resort to mpmath library if vectorized SciPy code fails
                     if not np.all(np.isfinite(term_hermitenorm_log)):
-- 
2.43.0


From be828657d720a2d879c89f254442a686cf9704de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:20:19 +0000
Subject: [PATCH 17/25] fix: sum coupling operators over several modes with the
 PyTorch engine

---
 SQcircuit/circuit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SQcircuit/circuit.py b/SQcircuit/circuit.py
index 6dfd392..4e80dc8 100755
--- a/SQcircuit/circuit.py
+++ b/SQcircuit/circuit.py
@@ -2361,7 +2361,8 @@ class Circuit:
             return op
 
         def sp_add(a, b):
-            if a == 0:
+            # sparse tensors do not support comparison with a scalar
+            if isinstance(a, int) and a == 0:
                 return b
             return a + b
 
-- 
2.43.0


From 2779010904595dc02166106e1b938a4c089b2e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:49 +0000
Subject: [PATCH 18/25] fix: leave elements unchanged when too few parameters
 are given

---
 SQcircuit/circuit.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/SQcircuit/circuit.py b/SQcircuit/circuit.py
index 4e80dc8..48b971f 100755
--- a/SQcircuit/circuit.py
+++ b/SQcircuit/circuit.py
@@ -518,11 +518,11 @@ class Circuit:
     def parameters(self, new_params: Union[Tensor, List[Tensor]]) -> None:
         raise_optim_error_if_needed()
 
-        try:
-            for i, element in enumerate(self._parameters.keys()):
-                element.internal_value = new_params[i]
-        except IndexError as e:
-            raise ValueError('Shape of new parameters does not match.') from e
+        if len(new_params) < len(self._parameters):
+            raise ValueError('Shape of new parameters does not match.')
+
+        for i, element in enumerate(self._parameters.keys()):
+            element.internal_value = new_params[i]
 
         self.update()
 
-- 
2.43.0


From 1888aecaa79e0cbd800049b2cdef241cb4e1a9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:54 +0000
Subject: [PATCH 19/25] fix: keep coordinate changes real for singular
 susceptance matrices

---
 SQcircuit/circuit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/SQcircuit/circuit.py b/SQcircuit/circuit.py
index 48b971f..1533372 100755
--- a/SQcircuit/circuit.py
+++ b/SQcircuit/circuit.py
@@ -932,7 +932,9 @@ class Circuit:
 
         c_mat_root = sqrtm(sqf.to_numpy(self.C))
         c_mat_root_inv = np.linalg.inv(c_mat_root)
-        l_mat_root = sqrtm(sqf.to_numpy(self.L))
+        # rounding can make the zero eigenvalues of a singular L negative,
+        # which gives the root a small imaginary part
+        l_mat_root = np.real(sqrtm(sqf.to_numpy(self.L)))
 
         _, D, U = np.linalg.svd(l_mat_root @ c_mat_root_inv)
 
-- 
2.43.0


From c8b8eed188ef1968210ae4a2bc420c69126ec20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:25 +0000
Subject: [PATCH 20/25] fix: compute flux shares with bounded weight ratios

---
 SQcircuit/circuit.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/SQcircuit/circuit.py b/SQcircuit/circuit.py
index 1533372..02bb8fb 100755
--- a/SQcircuit/circuit.py
+++ b/SQcircuit/circuit.py
@@ -825,7 +825,11 @@ class Circuit:
 
             k_mat = sqf.remove_dependent_columns(k_mat)
 
-            x_mat = k_mat.T @ np.diag([sqf.to_numpy(c) for c in c_edge_mat])
+            # bound the ratio of the weights, since only ratios matter and
+            # extreme ones make x_mat numerically singular
+            c_edge = np.array([sqf.to_numpy(c) for c in c_edge_mat])
+            c_edge = np.maximum(c_edge / np.max(c_edge, initial=0), 1e-8)
+            x_mat = k_mat.T @ np.diag(c_edge)
 
             for loop in self.loops:
                 g = np.zeros((1, b_id))
-- 
2.43.0


From 3d6d613532559d829e82f29637c84abc6f2cb3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:12:13 +0000
Subject: [PATCH 21/25] fix: keep eigenvector matrix two-dimensional for a
 single eigenvalue

---
 SQcircuit/torch_extensions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SQcircuit/torch_extensions.py b/SQcircuit/torch_extensions.py
index f3d563e..f96aa28 100755
--- a/SQcircuit/torch_extensions.py
+++ b/SQcircuit/torch_extensions.py
@@ -186,7 +186,7 @@ class EigenSolver(Function):
         eigenvector_tensors = [torch.as_tensor(eigenvector.full(),
                                                dtype=torch.complex128)
                                 for eigenvector in eigenvectors]
-        eigenvector_tensor = torch.squeeze(torch.stack(eigenvector_tensors))
+        eigenvector_tensor = torch.squeeze(torch.stack(eigenvector_tensors), dim=-1)
 
         # Setup context -- needs to be done after diagonalization so that
         # memory ops are filled
-- 
2.43.0


From 029532572993640392721b0181b7f150ac67c91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:15:23 +0000
Subject: [PATCH 22/25] fix: derivative of a state with the NumPy engine

---
 SQcircuit/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SQcircuit/circuit.py b/SQcircuit/circuit.py
index 02bb8fb..94f4c72 100755
--- a/SQcircuit/circuit.py
+++ b/SQcircuit/circuit.py
@@ -2925,7 +2925,7 @@ class Circuit:
         n_eig = len(self._evecs)
 
         partial_H = self._get_partial_H(el)
-        partial_state = sqf.zeros(state_m.shape)
+        partial_state = 0 * state_m
 
         for n in range(n_eig):
             if n == m:
-- 
2.43.0


From b9ea9240121dfa3051fbf3e1aa314dc0853f538f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:19:31 +0000
Subject: [PATCH 23/25] fix: record derivative matrices of element capacitors
 with the NumPy engine

---
 SQcircuit/circuit.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/SQcircuit/circuit.py b/SQcircuit/circuit.py
index 94f4c72..b9476b4 100755
--- a/SQcircuit/circuit.py
+++ b/SQcircuit/circuit.py
@@ -169,10 +169,10 @@ class CircuitEdge:
 
                 if get_optim_mode():
                     self.circ.add_to_parameters(el.cap)
-                    if hasattr(el.cap, 'partial_mat'):
-                        self.circ.partial_mats[el.cap] += (
-                            el.cap.partial_mat(self.mat_rep)
-                        )
+                if hasattr(el.cap, 'partial_mat'):
+                    self.circ.partial_mats[el.cap] += (
+                        el.cap.partial_mat(self.mat_rep)
+                    )
 
                 self.circ.elem_keys[el.type].append(
                     el.get_key(self.edge, b_id, w_id)
-- 
2.43.0


From fa43cd14035f89abff14242e690ce81d7d90d9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:25:38 +0000
Subject: [PATCH 24/25] fix: product of a tensor and an operator

---
 SQcircuit/functions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/SQcircuit/functions.py b/SQcircuit/functions.py
index a36d50c..543a497 100755
--- a/SQcircuit/functions.py
+++ b/SQcircuit/functions.py
@@ -281,8 +281,7 @@ def mat_mul(A, B):
             return torch.mm(A, B)
         elif isinstance(A, Tensor) and isinstance(B, Qobj):
             B = qobj_to_tensor(B)
-            # TODO: Add additional check on input dimensions, to make sure this works
-            return torch.transpose(torch.sparse.mm(B, A), 0, 1)
+            return torch.sparse.mm(A, B)
         elif isinstance(A, Qobj) and isinstance(B, Tensor):
             A = qobj_to_tensor(A)
             return torch.sparse.mm(A, B)
-- 
2.43.0


From f19a7b62f2867a4b68b8708400b567781974f531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:39:41 +0000
Subject: [PATCH 25/25] fix: description of a flux-biased circuit without
 harmonic modes

---
 SQcircuit/symbolic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/SQcircuit/symbolic.py b/SQcircuit/symbolic.py
index 4c52987..8d7ef09 100755
--- a/SQcircuit/symbolic.py
+++ b/SQcircuit/symbolic.py
@@ -123,6 +123,8 @@ def inductive_hamil(elem_keys, coeff_dict, do_sum=True) -> Expr:
 
     terms = []
     for i, (edge, _, b_id) in enumerate(elem_keys[Inductor]):
+        if coeff_dict['har_dim'] == 0:
+            continue
         if np.sum(np.abs(B[b_id, :])) == 0:
             continue
         if 0 in edge:
-- 
2.43.0

