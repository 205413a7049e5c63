From 50e762a1b1209bc50fdd0082d664f2032ce17b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:53 +0000
Subject: [PATCH 01/78] fix: SU fidelity normalisation of a numpy scalar
 overlap

With ndarray operators the prenormalised overlap is a numpy scalar, whose
empty shape raised IndexError, so phase_option="SU" was unusable.
normalize_PSU already handled this.
---
 src/qutip_qtrl/fidcomp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/fidcomp.py b/src/qutip_qtrl/fidcomp.py
index 9b776a0..206c80b 100644
--- a/src/qutip_qtrl/fidcomp.py
+++ b/src/qutip_qtrl/fidcomp.py
@@ -378,7 +378,7 @@ class FidCompUnitary(FidelityComputer):
                 norm = _trace(A)
             else:
                 raise TypeError("Cannot compute trace (not square)")
-        except AttributeError:
+        except (AttributeError, IndexError):
             # assume input is already scalar and hence assumed
             # to be the prenormalised scalar value, e.g. fidelity
             norm = A
-- 
2.43.0


From 03f1196f2b0faf179981459677c94930f70c8722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:53 +0000
Subject: [PATCH 02/78] fix: trace difference fidelity of states with Qobj
 operators

The product of a bra and a ket is a scalar, not a Qobj, so calling .tr()
on it raised AttributeError.
---
 src/qutip_qtrl/fidcomp.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/qutip_qtrl/fidcomp.py b/src/qutip_qtrl/fidcomp.py
index 206c80b..1fe1bd4 100644
--- a/src/qutip_qtrl/fidcomp.py
+++ b/src/qutip_qtrl/fidcomp.py
@@ -64,6 +64,9 @@ def _trace(A):
     # input is an operator (Qobj, array, sparse etc), so
     if isinstance(A, Qobj):
         return A.tr()
+    elif np.ndim(A) == 0:
+        # inner product of states has already been reduced to a scalar
+        return A
     else:
         return np.trace(A)
 
@@ -614,7 +617,7 @@ class FidCompTraceDiff(FidelityComputer):
             # np.real, just avoids the complex casting warning
             if dyn.oper_dtype == Qobj:
                 self.fid_err = self.scale_factor * np.real(
-                    (evo_f_diff.dag() * evo_f_diff).tr()
+                    _trace(evo_f_diff.dag() * evo_f_diff)
                 )
             else:
                 self.fid_err = self.scale_factor * np.real(
@@ -695,7 +698,7 @@ class FidCompTraceDiff(FidelityComputer):
                     g = (
                         -2
                         * self.scale_factor
-                        * np.real((evo_f_diff.dag() * evo_grad).tr())
+                        * np.real(_trace(evo_f_diff.dag() * evo_grad))
                     )
                 else:
                     evo_grad = dyn._get_prop_grad(k, j).dot(fwd_evo)
@@ -773,7 +776,7 @@ class FidCompTraceDiffApprox(FidCompTraceDiff):
                     # Note that the value should have not imagnary part, so
                     # using np.real, just avoids the complex casting warning
                     fid_err_eps = self.scale_factor * np.real(
-                        (evo_f_diff_eps.dag() * evo_f_diff_eps).tr()
+                        _trace(evo_f_diff_eps.dag() * evo_f_diff_eps)
                     )
                 else:
                     evo_final_eps = fwd_evo.dot(prop_eps)
-- 
2.43.0


From d90a9f31b61badca3851e09284c8529222c4d086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:53 +0000
Subject: [PATCH 03/78] fix: time order of the propagators in the approximate
 gradient

FidCompTraceDiffApprox multiplied the forward evolution, the offset
propagator and the onward evolution in reverse order, which is wrong for
non-commuting generators and fails for state targets.
---
 src/qutip_qtrl/fidcomp.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/qutip_qtrl/fidcomp.py b/src/qutip_qtrl/fidcomp.py
index 1fe1bd4..b0e0c43 100644
--- a/src/qutip_qtrl/fidcomp.py
+++ b/src/qutip_qtrl/fidcomp.py
@@ -769,9 +769,9 @@ class FidCompTraceDiffApprox(FidCompTraceDiff):
                 fwd_evo = dyn._fwd_evo[k]
                 prop_eps = prop_comp._compute_diff_prop(k, j, self.epsilon)
                 if dyn.oper_dtype == Qobj:
-                    evo_final_eps = fwd_evo * prop_eps
+                    evo_final_eps = prop_eps * fwd_evo
                     if k + 1 < n_ts:
-                        evo_final_eps = evo_final_eps * dyn._onwd_evo[k + 1]
+                        evo_final_eps = dyn._onwd_evo[k + 1] * evo_final_eps
                     evo_f_diff_eps = dyn._target - evo_final_eps
                     # Note that the value should have not imagnary part, so
                     # using np.real, just avoids the complex casting warning
@@ -779,9 +779,9 @@ class FidCompTraceDiffApprox(FidCompTraceDiff):
                         _trace(evo_f_diff_eps.dag() * evo_f_diff_eps)
                     )
                 else:
-                    evo_final_eps = fwd_evo.dot(prop_eps)
+                    evo_final_eps = prop_eps.dot(fwd_evo)
                     if k + 1 < n_ts:
-                        evo_final_eps = evo_final_eps.dot(dyn._onwd_evo[k + 1])
+                        evo_final_eps = dyn._onwd_evo[k + 1].dot(evo_final_eps)
                     evo_f_diff_eps = dyn._target - evo_final_eps
                     fid_err_eps = self.scale_factor * np.real(
                         _trace(evo_f_diff_eps.conj().T.dot(evo_f_diff_eps))
-- 
2.43.0


From 5a21e34bb1446b1b71bea0230d70a4280f732b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:53 +0000
Subject: [PATCH 04/78] fix: augmented matrix propagator with Qobj operators

The data layer object of a Qobj is not a scipy sparse matrix any more, so
building the augmented matrix raised TypeError.
---
 src/qutip_qtrl/propcomp.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/qutip_qtrl/propcomp.py b/src/qutip_qtrl/propcomp.py
index ee422fd..0080814 100644
--- a/src/qutip_qtrl/propcomp.py
+++ b/src/qutip_qtrl/propcomp.py
@@ -336,10 +336,10 @@ class PropCompAugMat(PropagatorComputer):
         dg = dyn._get_phased_dyn_gen(k)
 
         if dyn.oper_dtype == Qobj:
-            A = dg.data * dyn.tau[k]
-            E = dyn._get_phased_ctrl_dyn_gen(k, j).data * dyn.tau[k]
-            Z = sp.csr_matrix(dg.data.shape)
-            aug = Qobj(sp.vstack([sp.hstack([A, E]), sp.hstack([Z, A])]))
+            A = dg.full() * dyn.tau[k]
+            E = dyn._get_phased_ctrl_dyn_gen(k, j).full() * dyn.tau[k]
+            Z = np.zeros(dg.shape)
+            aug = Qobj(np.vstack([np.hstack([A, E]), np.hstack([Z, A])]))
         else:
             A = dg * dyn.tau[k]
             E = dyn._get_phased_ctrl_dyn_gen(k, j) * dyn.tau[k]
@@ -362,7 +362,7 @@ class PropCompAugMat(PropagatorComputer):
         aug = self._get_aug_mat(k, j)
 
         if dyn.oper_dtype == Qobj:
-            aug_exp = aug.expm()
+            aug_exp = aug.expm().full()
             prop_grad = Qobj(
                 aug_exp[: dg.shape[0], dg.shape[1] :], dims=dyn.dyn_dims
             )
-- 
2.43.0


From 229472cf718314243b36726120a4730fa9873c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:53 +0000
Subject: [PATCH 05/78] fix: symplectic dynamics with automatically chosen Qobj
 operators

The symplectic phase was created before the operator data type was chosen
(e.g. through memory_optimization) and hence had the wrong type.
---
 src/qutip_qtrl/dynamics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index f48b916..1c15d6a 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -734,10 +734,12 @@ class Dynamics(object):
         self.refresh_drift_attribs()
         self.sys_dims = self.initial.dims
         self.sys_shape = self.initial.shape
+        self._set_memory_optimizations()
         # Set the phase application method
+        # (after the operator data type has been chosen, as the symplectic
+        # phase must be of that type)
         self._init_phase()
 
-        self._set_memory_optimizations()
         if self.sparse_eigen_decomp and self.sys_shape[0] <= 2:
             raise ValueError(
                 "Single qubit pulse optimization dynamics cannot use sparse"
-- 
2.43.0


From d0ed1ee09409227da8339663cef442bd64d3c28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:53 +0000
Subject: [PATCH 06/78] fix: onwd_evo returned the forward evolution with Qobj
 operators

---
 src/qutip_qtrl/dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 1c15d6a..7ffd517 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -1387,7 +1387,7 @@ class Dynamics(object):
         if self._onwd_evo is not None:
             if self._onwd_evo_qobj is None:
                 if self.oper_dtype == Qobj:
-                    self._onwd_evo_qobj = self._fwd_evo
+                    self._onwd_evo_qobj = self._onwd_evo
                 else:
                     self._onwd_evo_qobj = [
                         Qobj(dg, dims=self.sys_dims) for dg in self._onwd_evo
-- 
2.43.0


From f9c364753f54b577a29911d28e95602e6f2a2ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:53 +0000
Subject: [PATCH 07/78] fix: dims of the onward and onto evolution of states

onwd_evo holds operators and onto_evo bras when the initial is a ket, so
both accessors raised ValueError when given the dims of the ket.
---
 src/qutip_qtrl/dynamics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 7ffd517..f422440 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -1390,7 +1390,7 @@ class Dynamics(object):
                     self._onwd_evo_qobj = self._onwd_evo
                 else:
                     self._onwd_evo_qobj = [
-                        Qobj(dg, dims=self.sys_dims) for dg in self._onwd_evo
+                        Qobj(dg, dims=self.dyn_dims) for dg in self._onwd_evo
                     ]
         return self._onwd_evo_qobj
 
@@ -1410,10 +1410,11 @@ class Dynamics(object):
                 if self.oper_dtype == Qobj:
                     self._onto_evo_qobj = self._onto_evo
                 else:
+                    rev_dims = [self.sys_dims[1], self.sys_dims[0]]
                     self._onto_evo_qobj = []
                     for k in range(0, self.num_tslots):
                         self._onto_evo_qobj.append(
-                            Qobj(self._onto_evo[k], dims=self.sys_dims)
+                            Qobj(self._onto_evo[k], dims=rev_dims)
                         )
                     self._onto_evo_qobj.append(self.onto_evo_target)
 
-- 
2.43.0


From 260a6fe81a7672fbd807b4eaff32524d2e1d57fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:30 +0000
Subject: [PATCH 08/78] fix: amplitudes changed in place were not recognised as
 changed

update_ctrl_amps kept a reference to the array of the caller, so when the
same array was modified and submitted again it compared equal to itself and
the fidelity, gradient and evolution of the previous amplitudes were kept.
---
 src/qutip_qtrl/tslotcomp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/tslotcomp.py b/src/qutip_qtrl/tslotcomp.py
index 18c1473..bf1a8e3 100644
--- a/src/qutip_qtrl/tslotcomp.py
+++ b/src/qutip_qtrl/tslotcomp.py
@@ -216,7 +216,9 @@ class TSlotCompUpdateAll(TimeslotComputer):
             dyn.stats.num_timeslot_changes += ecs.num_timeslots_changed
 
         if changed:
-            dyn.ctrl_amps = new_amps
+            # keep a copy, otherwise a later change of the array by the
+            # caller would go unnoticed in the comparison above
+            dyn.ctrl_amps = new_amps.copy()
             dyn.flag_system_changed()
             return False
         else:
-- 
2.43.0


From dbe73e6879234abd0a2a0f3cf6191d3d66e92f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:49 +0000
Subject: [PATCH 09/78] fix: logging of the propagators at level DEBUG_INTENSE

The propagators belong to the dynamics, not the timeslot computer, and
operators do not support a float format.
---
 src/qutip_qtrl/tslotcomp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/tslotcomp.py b/src/qutip_qtrl/tslotcomp.py
index bf1a8e3..cdec161 100644
--- a/src/qutip_qtrl/tslotcomp.py
+++ b/src/qutip_qtrl/tslotcomp.py
@@ -283,8 +283,8 @@ class TSlotCompUpdateAll(TimeslotComputer):
                         if self.log_level <= logging.DEBUG_INTENSE:
                             logger.log(
                                 logging.DEBUG_INTENSE,
-                                "propagator {}:\n{:10.3g}".format(
-                                    k, self._prop[k]
+                                "propagator {}:\n{}".format(
+                                    k, dyn._prop[k]
                                 ),
                             )
                     else:
-- 
2.43.0


From db277dbdfe6fe710edd3c2e0e81eb3ed95b58559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:50 +0000
Subject: [PATCH 10/78] fix: onto_evo_target of an earlier target was kept on
 re-initialisation

---
 src/qutip_qtrl/dynamics.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index f422440..02c6242 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -808,6 +808,9 @@ class Dynamics(object):
         if self.fid_computer.uses_onwd_evo:
             # Time evolution operator (onward propagation)
             self._onwd_evo = [object for x in range(self.num_tslots)]
+        # The target may have changed since it was last inverted
+        self._onto_evo_target = None
+        self._onto_evo_target_qobj = None
         if self.fid_computer.uses_onto_evo:
             # Onward propagation overlap with inverse target
             self._onto_evo = [object for x in range(self.num_tslots + 1)]
-- 
2.43.0


From 35b96d270964d1b3612dfa643dd456136c8a1da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 11/78] fix: replacing the controls of a dynamics object was
 not taken up on re-initialisation

---
 src/qutip_qtrl/dynamics.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 02c6242..08b49b3 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -732,6 +732,8 @@ class Dynamics(object):
             raise TypeError("target must be a Qobj")
 
         self.refresh_drift_attribs()
+        # The controls may have been replaced since they were last counted
+        self._num_ctrls = self._get_num_ctrls()
         self.sys_dims = self.initial.dims
         self.sys_shape = self.initial.shape
         self._set_memory_optimizations()
@@ -1140,6 +1142,7 @@ class Dynamics(object):
             self.time_depend_ctrl_dyn_gen = True
         else:
             self._num_ctrls = len(self.ctrl_dyn_gen)
+            self.time_depend_ctrl_dyn_gen = False
 
         return self._num_ctrls
 
-- 
2.43.0


From 0f61bd790a0b21d7aadecad8af95753ade1d86ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:45 +0000
Subject: [PATCH 12/78] fix: termination reason when fmin_bfgs converges or
 gives up

---
 src/qutip_qtrl/optimizer.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index dae2e93..5fa2104 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -874,12 +874,20 @@ class OptimizerBFGS(Optimizer):
 
             amps = self._get_ctrl_amps(optim_var_vals)
             dyn.update_ctrl_amps(amps)
-            if warn == 1:
+            if warn == 0:
+                result.grad_norm_min_reached = True
+                result.termination_reason = "Gradient normal minimum reached"
+            elif warn == 1:
                 result.max_iter_exceeded = True
                 result.termination_reason = "Iteration count limit reached"
             elif warn == 2:
-                result.grad_norm_min_reached = True
-                result.termination_reason = "Gradient normal minimum reached"
+                result.termination_reason = (
+                    "Gradient and/or function calls not changing"
+                )
+            else:
+                result.termination_reason = "Unknown (warn_flag={})".format(
+                    warn
+                )
 
         except errors.OptimizationTerminate as except_term:
             self._interpret_term_exception(except_term, result)
-- 
2.43.0


From b3ce03b62c8b24f2cd724c1d287f95c96cbffe48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:45 +0000
Subject: [PATCH 13/78] fix: L-BFGS-B function convergence was flagged as
 gradient minimum reached

---
 src/qutip_qtrl/optimizer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index 5fa2104..2176e3f 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -1030,7 +1030,11 @@ class OptimizerLBFGSB(Optimizer):
             dyn.update_ctrl_amps(amps)
             warn = res_dict["warnflag"]
             if warn == 0:
-                result.grad_norm_min_reached = True
+                # Converged, because of either the (projected) gradient or
+                # the reduction of the function value
+                result.grad_norm_min_reached = (
+                    "GRADIENT" in str(res_dict["task"]).upper()
+                )
                 result.termination_reason = "function converged"
             elif warn == 1:
                 result.max_iter_exceeded = True
-- 
2.43.0


From 9d38f486d4a0fbfcb80c98ac43e42cef5b066f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 14/78] fix: iteration limit and missing iteration count with
 scipy.optimize.minimize methods

---
 src/qutip_qtrl/optimizer.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index 2176e3f..2a79df2 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -594,13 +594,20 @@ class Optimizer(object):
             result.termination_reason = opt_res.message
             # Note the iterations are counted in this object as well
             # so there are compared here for interest sake only
-            if self.num_iter != opt_res.nit:
+            # (not all methods report the number of iterations)
+            num_iter = opt_res.get("nit", self.num_iter)
+            if self.num_iter != num_iter:
                 logger.info(
                     "The number of iterations counted {} "
                     " does not match the number reported {} "
-                    "by {}".format(self.num_iter, opt_res.nit, self.method)
+                    "by {}".format(self.num_iter, num_iter, self.method)
                 )
-            result.num_iter = opt_res.nit
+            result.num_iter = num_iter
+            if (
+                not opt_res.success
+                and num_iter >= term_conds.max_iterations
+            ):
+                result.max_iter_exceeded = True
 
         except errors.OptimizationTerminate as except_term:
             self._interpret_term_exception(except_term, result)
-- 
2.43.0


From c59ac5b84b92200dd18e607547a8987f681bbe1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:21 +0000
Subject: [PATCH 15/78] fix: final amplitudes of the result were shared with
 the dynamics

---
 src/qutip_qtrl/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index 2a79df2..d9ab7a1 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -790,7 +790,7 @@ class Optimizer(object):
         result.wall_time = end_time - st_time
         result.fid_err = dyn.fid_computer.get_fid_err()
         result.grad_norm_final = dyn.fid_computer.grad_norm
-        result.final_amps = dyn.ctrl_amps
+        result.final_amps = dyn.ctrl_amps.copy()
         final_evo = dyn.full_evo
         if isinstance(final_evo, Qobj):
             result.evo_full_final = final_evo
-- 
2.43.0


From cdaee97eb2c2473a650b3810297b630efbd8da74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:21 +0000
Subject: [PATCH 16/78] fix: fidelity of the result was never set

---
 src/qutip_qtrl/optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index d9ab7a1..9cda305 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -789,6 +789,8 @@ class Optimizer(object):
         result.num_fid_func_calls = self.num_fid_func_calls
         result.wall_time = end_time - st_time
         result.fid_err = dyn.fid_computer.get_fid_err()
+        if hasattr(dyn.fid_computer, "get_fidelity"):
+            result.fidelity = dyn.fid_computer.get_fidelity()
         result.grad_norm_final = dyn.fid_computer.grad_norm
         result.final_amps = dyn.ctrl_amps.copy()
         final_evo = dyn.full_evo
-- 
2.43.0


From 492ae1fbde3c718270c9391ccd9952454a520719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:15 +0000
Subject: [PATCH 17/78] fix: division by zero in the statistics for dynamic
 updates

---
 src/qutip_qtrl/stats.py | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/qutip_qtrl/stats.py b/src/qutip_qtrl/stats.py
index c628539..cfa2a3c 100644
--- a/src/qutip_qtrl/stats.py
+++ b/src/qutip_qtrl/stats.py
@@ -342,40 +342,42 @@ class StatsDynTsUpdate(Stats):
 
     def calculate(self):
         Stats.calculate(self)
-        self.mean_num_dyn_gen_computes_per_update = (
-            self.num_dyn_gen_computes / float(self.num_ctrl_amp_updates)
+        self.mean_num_dyn_gen_computes_per_update = self._mean(
+            self.num_dyn_gen_computes, self.num_ctrl_amp_updates
         )
 
-        self.mean_wall_time_dyn_gen_compute = (
-            self.wall_time_dyn_gen_compute / float(self.num_dyn_gen_computes)
+        self.mean_wall_time_dyn_gen_compute = self._mean(
+            self.wall_time_dyn_gen_compute, self.num_dyn_gen_computes
         )
 
-        self.mean_num_prop_computes_per_update = (
-            self.num_prop_computes / float(self.num_ctrl_amp_updates)
+        self.mean_num_prop_computes_per_update = self._mean(
+            self.num_prop_computes, self.num_ctrl_amp_updates
         )
 
-        self.mean_wall_time_prop_compute = self.wall_time_prop_compute / float(
-            self.num_prop_computes
+        self.mean_wall_time_prop_compute = self._mean(
+            self.wall_time_prop_compute, self.num_prop_computes
         )
 
-        self.mean_num_fwd_prop_step_computes_per_update = (
-            self.num_fwd_prop_step_computes / float(self.num_ctrl_amp_updates)
+        self.mean_num_fwd_prop_step_computes_per_update = self._mean(
+            self.num_fwd_prop_step_computes, self.num_ctrl_amp_updates
         )
 
-        self.mean_wall_time_fwd_prop_compute = (
-            self.wall_time_fwd_prop_compute
-            / float(self.num_fwd_prop_step_computes)
+        self.mean_wall_time_fwd_prop_compute = self._mean(
+            self.wall_time_fwd_prop_compute, self.num_fwd_prop_step_computes
         )
 
-        self.mean_num_onwd_prop_step_computes_per_update = (
-            self.num_onwd_prop_step_computes / float(self.num_ctrl_amp_updates)
+        self.mean_num_onwd_prop_step_computes_per_update = self._mean(
+            self.num_onwd_prop_step_computes, self.num_ctrl_amp_updates
         )
 
-        self.mean_wall_time_onwd_prop_compute = (
-            self.wall_time_onwd_prop_compute
-            / float(self.num_onwd_prop_step_computes)
+        self.mean_wall_time_onwd_prop_compute = self._mean(
+            self.wall_time_onwd_prop_compute, self.num_onwd_prop_step_computes
         )
 
+    def _mean(self, total, count):
+        # As in the base class, the mean of nothing is not a number
+        return total / float(count) if count else np.nan
+
     def report(self):
         """
         Print a report of the stats to the console
-- 
2.43.0


From 2580c0422c37ac3573e7293b6be707bec7c78fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:15 +0000
Subject: [PATCH 18/78] fix: iteration count in the statistics

---
 src/qutip_qtrl/optimizer.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index 9cda305..0cc1c8b 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -755,15 +755,15 @@ class Optimizer(object):
         if self.dump and self.dump.dump_summary:
             self.dump.add_iter_summary()
 
+        # *** update stats ***
+        if self.stats is not None:
+            self.stats.num_iter = self.num_iter
+
         tc = self.termination_conditions
 
         if wall_time > tc.max_wall_time:
             raise errors.MaxWallTimeTerminate()
 
-        # *** update stats ***
-        if self.stats is not None:
-            self.stats.num_iter = self.num_iter
-
     def _interpret_term_exception(self, except_term, result):
         """
         Update the result object based on the exception that occurred
@@ -845,7 +845,7 @@ class OptimizerBFGS(Optimizer):
         if self.stats is not None:
             self.stats.wall_time_optim_start = st_time
             self.stats.wall_time_optim_end = 0.0
-            self.stats.num_iter = 1
+            self.stats.num_iter = 0
 
         if self.approx_grad:
             fprime = None
@@ -985,7 +985,7 @@ class OptimizerLBFGSB(Optimizer):
         if self.stats is not None:
             self.stats.wall_time_optim_start = st_time
             self.stats.wall_time_optim_end = 0.0
-            self.stats.num_iter = 1
+            self.stats.num_iter = 0
 
         bounds = self._build_bounds_list()
         result = self._create_result()
@@ -1250,7 +1250,7 @@ class OptimizerCrabFmin(OptimizerCrab):
         if self.stats is not None:
             self.stats.wall_time_optim_start = st_time
             self.stats.wall_time_optim_end = 0.0
-            self.stats.num_iter = 1
+            self.stats.num_iter = 0
 
         result = self._create_result()
 
-- 
2.43.0


From 3d855b200f56df4031ba35e488b069edeed38c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:29 +0000
Subject: [PATCH 19/78] fix: slot durations were shared with the caller's array

---
 src/qutip_qtrl/dynamics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 08b49b3..d70c2f5 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -575,7 +575,9 @@ class Dynamics(object):
 
     @tau.setter
     def tau(self, value):
-        self._tau = value
+        # keep a copy, so that later changes the caller makes to the array
+        # do not put tau at odds with the evo_time and time attributes
+        self._tau = None if value is None else np.array(value, dtype=float)
         self.init_timeslots()
 
     def init_timeslots(self):
-- 
2.43.0


From 8123a9289ebb1b5afdd25790ae40117b8d91bcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:41 +0000
Subject: [PATCH 20/78] fix: changing the phase option kept the fidelity of the
 previous one

---
 src/qutip_qtrl/fidcomp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qutip_qtrl/fidcomp.py b/src/qutip_qtrl/fidcomp.py
index b0e0c43..35a4612 100644
--- a/src/qutip_qtrl/fidcomp.py
+++ b/src/qutip_qtrl/fidcomp.py
@@ -322,6 +322,9 @@ class FidCompUnitary(FidelityComputer):
 
     def _init_phase_option(self, value):
         self._phase_option = value
+        # the values computed with the previous option are not valid any more
+        self.fidelity_current = False
+        self.fid_err_grad_current = False
         if value == "PSU":
             self.fid_norm_func = self.normalize_PSU
             self.grad_norm_func = self.normalize_gradient_PSU
-- 
2.43.0


From d33d8ee748d211c9c3b47c623575aea01f8dcd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:41 +0000
Subject: [PATCH 21/78] fix: changing the scale factor kept the fidelity error
 of the previous one

---
 src/qutip_qtrl/fidcomp.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/qutip_qtrl/fidcomp.py b/src/qutip_qtrl/fidcomp.py
index 35a4612..b8d808e 100644
--- a/src/qutip_qtrl/fidcomp.py
+++ b/src/qutip_qtrl/fidcomp.py
@@ -583,6 +583,17 @@ class FidCompTraceDiff(FidelityComputer):
             )
         self.apply_params()
 
+    @property
+    def scale_factor(self):
+        return self._scale_factor
+
+    @scale_factor.setter
+    def scale_factor(self, value):
+        self._scale_factor = value
+        # the values computed with the previous factor are not valid any more
+        self.fidelity_current = False
+        self.fid_err_grad_current = False
+
     def init_comp(self):
         """
         initialises the computer based on the configuration of the Dynamics
-- 
2.43.0


From e2d3348c787dd1e4741ed339df4eba5745b771f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:41 +0000
Subject: [PATCH 22/78] fix: fid_err attribute was never set for the unitary
 fidelity

---
 src/qutip_qtrl/fidcomp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/fidcomp.py b/src/qutip_qtrl/fidcomp.py
index b8d808e..f4781b3 100644
--- a/src/qutip_qtrl/fidcomp.py
+++ b/src/qutip_qtrl/fidcomp.py
@@ -424,7 +424,8 @@ class FidCompUnitary(FidelityComputer):
         """
         Gets the absolute error in the fidelity
         """
-        return np.abs(1 - self.get_fidelity())
+        self.fid_err = np.abs(1 - self.get_fidelity())
+        return self.fid_err
 
     def get_fidelity(self):
         """
-- 
2.43.0


From 625055b66b45c1ac27df3a0de584e79f014f89c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:12 +0000
Subject: [PATCH 23/78] fix: limits of an earlier run persisted in the method
 options

---
 src/qutip_qtrl/optimizer.py | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index 0cc1c8b..56d39eb 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -441,11 +441,11 @@ class Optimizer(object):
         It assumes that apply_method_params has already been run and
         hence the method_options attribute may already contain items.
         These values will NOT be overridden
+        The method_options attribute itself is left as it is, otherwise the
+        values would persist and override changes made before a later run
         """
         tc = self.termination_conditions
-        if self.method_options is None:
-            self.method_options = {}
-        mo = self.method_options
+        mo = dict(self.method_options) if self.method_options else {}
 
         if "max_metric_corr" in mo and "maxcor" not in mo:
             mo["maxcor"] = mo["max_metric_corr"]
@@ -493,7 +493,9 @@ class Optimizer(object):
                 if not isinstance(self.method_options, dict):
                     self.method_options = unused_params
                 else:
-                    self.method_options.update(unused_params)
+                    self.method_options = dict(
+                        self.method_options, **unused_params
+                    )
 
     def _build_bounds_list(self):
         cfg = self.config
@@ -561,7 +563,7 @@ class Optimizer(object):
         if self.bounds is None:
             self._build_bounds_list()
 
-        self._build_method_options()
+        method_options = self._build_method_options()
 
         result = self._create_result()
 
@@ -585,7 +587,7 @@ class Optimizer(object):
                 method=self.method,
                 jac=jac,
                 bounds=self.bounds,
-                options=self.method_options,
+                options=method_options,
                 callback=self.iter_step_callback_func,
             )
 
@@ -837,7 +839,6 @@ class OptimizerBFGS(Optimizer):
         term_conds = self.termination_conditions
         dyn = self.dynamics
         self.optim_var_vals = self._get_optim_var_vals()
-        self._build_method_options()
 
         st_time = timeit.default_timer()
         self.wall_time_optimize_start = st_time
@@ -977,7 +978,7 @@ class OptimizerLBFGSB(Optimizer):
         dyn = self.dynamics
         cfg = self.config
         self.optim_var_vals = self._get_optim_var_vals()
-        self._build_method_options()
+        method_options = self._build_method_options()
 
         st_time = timeit.default_timer()
         self.wall_time_optimize_start = st_time
@@ -995,19 +996,19 @@ class OptimizerLBFGSB(Optimizer):
         else:
             fprime = self.fid_err_grad_wrapper
 
-        if "accuracy_factor" in self.method_options:
-            factr = self.method_options["accuracy_factor"]
-        elif "ftol" in self.method_options:
-            factr = self.method_options["ftol"]
+        if "accuracy_factor" in method_options:
+            factr = method_options["accuracy_factor"]
+        elif "ftol" in method_options:
+            factr = method_options["ftol"]
         elif hasattr(term_conds, "accuracy_factor"):
             factr = term_conds.accuracy_factor
         else:
             factr = 1e7
 
-        if "max_metric_corr" in self.method_options:
-            m = self.method_options["max_metric_corr"]
-        elif "maxcor" in self.method_options:
-            m = self.method_options["maxcor"]
+        if "max_metric_corr" in method_options:
+            m = method_options["max_metric_corr"]
+        elif "maxcor" in method_options:
+            m = method_options["maxcor"]
         elif hasattr(self, "max_metric_corr"):
             m = self.max_metric_corr
         else:
@@ -1242,7 +1243,6 @@ class OptimizerCrabFmin(OptimizerCrab):
         dyn = self.dynamics
         cfg = self.config
         self.optim_var_vals = self._get_optim_var_vals()
-        self._build_method_options()
 
         st_time = timeit.default_timer()
         self.wall_time_optimize_start = st_time
-- 
2.43.0


From 3b65ae125a374e78fc6e89f281258b2e6e1d2396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:39 +0000
Subject: [PATCH 24/78] fix: bounds set by the user were ignored by L-BFGS-B,
 and those of an earlier run were kept

---
 src/qutip_qtrl/optimizer.py | 50 +++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 21 deletions(-)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index 56d39eb..61ef153 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -498,27 +498,39 @@ class Optimizer(object):
                     )
 
     def _build_bounds_list(self):
-        cfg = self.config
+        """
+        Creates the list of (lower, upper) bounds for the variables from the
+        amplitude bounds (see amp_lbound and amp_ubound)
+        """
         dyn = self.dynamics
         n_ctrls = dyn.num_ctrls
-        self.bounds = []
+        bounds = []
         for t in range(dyn.num_tslots):
             for c in range(n_ctrls):
-                if isinstance(self.amp_lbound, list):
-                    lb = self.amp_lbound[c]
-                else:
-                    lb = self.amp_lbound
-                if isinstance(self.amp_ubound, list):
-                    ub = self.amp_ubound[c]
-                else:
-                    ub = self.amp_ubound
+                lb = self._get_ctrl_bound(self.amp_lbound, c)
+                ub = self._get_ctrl_bound(self.amp_ubound, c)
+                bounds.append((lb, ub))
 
-                if lb is not None and np.isinf(lb):
-                    lb = None
-                if ub is not None and np.isinf(ub):
-                    ub = None
+        return bounds
 
-                self.bounds.append((lb, ub))
+    def _get_ctrl_bound(self, bound, ctrl):
+        """
+        Get the bound for the given control (index), None if there is none
+        """
+        if bound is not None and np.ndim(bound) > 0:
+            bound = bound[ctrl]
+        if bound is not None and np.isinf(bound):
+            bound = None
+        return bound
+
+    def _get_bounds(self):
+        """
+        Get the bounds for the variables. That is the bounds attribute, if it
+        has been set, otherwise they are based on the amplitude bounds
+        """
+        if self.bounds is not None:
+            return self.bounds
+        return self._build_bounds_list()
 
     def run_optimization(self, term_conds=None):
         """
@@ -560,9 +572,6 @@ class Optimizer(object):
             self.stats.wall_time_optim_end = 0.0
             self.stats.num_iter = 0
 
-        if self.bounds is None:
-            self._build_bounds_list()
-
         method_options = self._build_method_options()
 
         result = self._create_result()
@@ -586,7 +595,7 @@ class Optimizer(object):
                 self.optim_var_vals,
                 method=self.method,
                 jac=jac,
-                bounds=self.bounds,
+                bounds=self._get_bounds(),
                 options=method_options,
                 callback=self.iter_step_callback_func,
             )
@@ -988,7 +997,6 @@ class OptimizerLBFGSB(Optimizer):
             self.stats.wall_time_optim_end = 0.0
             self.stats.num_iter = 0
 
-        bounds = self._build_bounds_list()
         result = self._create_result()
 
         if self.approx_grad:
@@ -1028,7 +1036,7 @@ class OptimizerLBFGSB(Optimizer):
                 fprime=fprime,
                 approx_grad=self.approx_grad,
                 callback=self.iter_step_callback_func,
-                bounds=self.bounds,
+                bounds=self._get_bounds(),
                 m=m,
                 factr=factr,
                 pgtol=term_conds.min_gradient_norm,
-- 
2.43.0


From 87a0867466155088ffda7244cfaf18d51d757969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:48 +0000
Subject: [PATCH 25/78] fix: a changed fidelity goal was ignored after the
 first run

---
 src/qutip_qtrl/optimizer.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index 61ef153..202748b 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -400,12 +400,6 @@ class Optimizer(object):
                 "error tolerance must be set"
             )
 
-        if term_conds.fid_err_targ is None:
-            term_conds.fid_err_targ = np.abs(1 - term_conds.fid_goal)
-
-        if term_conds.fid_goal is None:
-            term_conds.fid_goal = 1 - term_conds.fid_err_targ
-
         if self.alg == "CRAB":
             self.approx_grad = True
 
@@ -691,7 +685,12 @@ class Optimizer(object):
         if self.dump and self.dump.dump_fid_err:
             self.dump.update_fid_err_log(err)
 
-        if err <= tc.fid_err_targ:
+        # Either the error target or the goal is given
+        fid_err_targ = tc.fid_err_targ
+        if fid_err_targ is None:
+            fid_err_targ = np.abs(1 - tc.fid_goal)
+
+        if err <= fid_err_targ:
             raise errors.GoalAchievedTerminate(err)
 
         if self.num_fid_func_calls > tc.max_fid_func_calls:
-- 
2.43.0


From 3684ac719612c1d24a1b0f15f741dc39e354ced2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:56 +0000
Subject: [PATCH 26/78] fix: final gradient norm of an earlier run in the
 result

---
 src/qutip_qtrl/optimizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index 202748b..013d5f4 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -801,7 +801,9 @@ class Optimizer(object):
         result.fid_err = dyn.fid_computer.get_fid_err()
         if hasattr(dyn.fid_computer, "get_fidelity"):
             result.fidelity = dyn.fid_computer.get_fidelity()
-        result.grad_norm_final = dyn.fid_computer.grad_norm
+        if self.num_grad_func_calls > 0:
+            # otherwise it would be that of an earlier run
+            result.grad_norm_final = dyn.fid_computer.grad_norm
         result.final_amps = dyn.ctrl_amps.copy()
         final_evo = dyn.full_evo
         if isinstance(final_evo, Qobj):
-- 
2.43.0


From 3fffb0b459ad4ebe0bf506ee59a8a5728aabfc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:02 +0000
Subject: [PATCH 27/78] fix: infinite limits made zero and random pulses
 infinite

---
 src/qutip_qtrl/pulsegen.py | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index d52d738..2420ee7 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -257,34 +257,41 @@ class PulseGen:
         (after applying the offset)
         Assumes that pulses passed are centered around zero (on average)
         """
-        if self.lbound is None and self.ubound is None:
+        # The bounds may have been set after the pulse was initialised
+        lbound, ubound = self.lbound, self.ubound
+        if lbound is not None and np.isinf(lbound):
+            lbound = None
+        if ubound is not None and np.isinf(ubound):
+            ubound = None
+
+        if lbound is None and ubound is None:
             return pulse + self.offset
 
         max_amp = max(pulse)
         min_amp = min(pulse)
-        if (self.ubound is None or max_amp + self.offset <= self.ubound) and (
-            self.lbound is None or min_amp + self.offset >= self.lbound
+        if (ubound is None or max_amp + self.offset <= ubound) and (
+            lbound is None or min_amp + self.offset >= lbound
         ):
             return pulse + self.offset
 
         # Some shifting / scaling is required.
-        if self.ubound is None or self.lbound is None:
+        if ubound is None or lbound is None:
             # One of the bounds is inf, so just shift the pulse
-            if self.lbound is None:
+            if lbound is None:
                 # max_amp + offset must exceed the ubound
-                return pulse + self.ubound - max_amp
+                return pulse + ubound - max_amp
             else:
                 # min_amp + offset must exceed the lbound
-                return pulse + self.lbound - min_amp
+                return pulse + lbound - min_amp
         else:
-            bound_range = self.ubound - self.lbound
+            bound_range = ubound - lbound
             amp_range = max_amp - min_amp
             if max_amp - min_amp > bound_range:
                 # pulse range is too high, it must be scaled
                 pulse = pulse * bound_range / amp_range
 
             # otherwise the pulse should fit anyway
-            return pulse + self.lbound - min(pulse)
+            return pulse + lbound - min(pulse)
 
     def _apply_ramping_pulse(self, pulse, ramping_pulse=None):
         if ramping_pulse is None:
@@ -306,6 +313,9 @@ class PulseGenZero(PulseGen):
         The value will be zero, unless the offset is not zero,
         in which case it will be the offset
         """
+        if not self._pulse_initialised:
+            self.init_pulse()
+
         pulse = np.zeros(self.num_tslots)
         return self._apply_bounds_and_offset(pulse)
 
@@ -327,6 +337,9 @@ class PulseGenRandom(PulseGen):
         and shifted using the offset property
         Returns the pulse as an array of vales for each timeslot
         """
+        if not self._pulse_initialised:
+            self.init_pulse()
+
         pulse = (2 * np.random.random(self.num_tslots) - 1) * self.scaling
 
         return self._apply_bounds_and_offset(pulse)
-- 
2.43.0


From 63da55c08d930725e8afc9a0f0861b2e879fd4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:12 +0000
Subject: [PATCH 28/78] fix: fid_err_scale_factor overrode scale_factor in
 fid_params

---
 src/qutip_qtrl/pulseoptim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index b7d3555..400a88b 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -407,7 +407,7 @@ def optimize_pulse(
     # fid_err_scale_factor
     if fid_err_scale_factor is not None:
         if isinstance(fid_params, dict):
-            if "fid_err_scale_factor" not in fid_params:
+            if "scale_factor" not in fid_params:
                 fid_params["scale_factor"] = fid_err_scale_factor
         else:
             fid_params = {"scale_factor": fid_err_scale_factor}
@@ -1808,7 +1808,7 @@ def create_pulse_optimizer(
     # fid_err_scale_factor
     if fid_err_scale_factor is not None:
         if isinstance(fid_params, dict):
-            if "fid_err_scale_factor" not in fid_params:
+            if "scale_factor" not in fid_params:
                 fid_params["scale_factor"] = fid_err_scale_factor
         else:
             fid_params = {"scale_factor": fid_err_scale_factor}
-- 
2.43.0


From 16d97c868f3de959f3f9daf9bd851cb19005e553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:36 +0000
Subject: [PATCH 29/78] fix: parameter dictionaries of the caller were changed

---
 src/qutip_qtrl/pulseoptim.py | 98 ++++++++++++++++--------------------
 1 file changed, 43 insertions(+), 55 deletions(-)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index 400a88b..ffc6d6d 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -93,6 +93,16 @@ def _upper_safe(s):
     return s
 
 
+def _default_param(params, key, value):
+    """
+    Returns a copy of the parameter dictionary (which belongs to the caller)
+    in which the value is set, unless there is one for the key already
+    """
+    params = dict(params) if isinstance(params, dict) else {}
+    params.setdefault(key, value)
+    return params
+
+
 def optimize_pulse(
     drift,
     ctrls,
@@ -371,22 +381,18 @@ def optimize_pulse(
         )
 
     if max_metric_corr is not None:
-        if isinstance(method_params, dict):
-            if "max_metric_corr" not in method_params:
-                method_params["max_metric_corr"] = max_metric_corr
-        else:
-            method_params = {"max_metric_corr": max_metric_corr}
+        method_params = _default_param(
+            method_params, "max_metric_corr", max_metric_corr
+        )
         _param_deprecation(
             "The 'max_metric_corr' parameter is deprecated. "
             "Use 'max_metric_corr' in method_params instead"
         )
 
     if accuracy_factor is not None:
-        if isinstance(method_params, dict):
-            if "accuracy_factor" not in method_params:
-                method_params["accuracy_factor"] = accuracy_factor
-        else:
-            method_params = {"accuracy_factor": accuracy_factor}
+        method_params = _default_param(
+            method_params, "accuracy_factor", accuracy_factor
+        )
         _param_deprecation(
             "The 'accuracy_factor' parameter is deprecated. "
             "Use 'accuracy_factor' in method_params instead"
@@ -394,11 +400,7 @@ def optimize_pulse(
 
     # phase_option
     if phase_option is not None:
-        if isinstance(fid_params, dict):
-            if "phase_option" not in fid_params:
-                fid_params["phase_option"] = phase_option
-        else:
-            fid_params = {"phase_option": phase_option}
+        fid_params = _default_param(fid_params, "phase_option", phase_option)
         _param_deprecation(
             "The 'phase_option' parameter is deprecated. "
             "Use 'phase_option' in fid_params instead"
@@ -406,11 +408,9 @@ def optimize_pulse(
 
     # fid_err_scale_factor
     if fid_err_scale_factor is not None:
-        if isinstance(fid_params, dict):
-            if "scale_factor" not in fid_params:
-                fid_params["scale_factor"] = fid_err_scale_factor
-        else:
-            fid_params = {"scale_factor": fid_err_scale_factor}
+        fid_params = _default_param(
+            fid_params, "scale_factor", fid_err_scale_factor
+        )
         _param_deprecation(
             "The 'fid_err_scale_factor' parameter is deprecated. "
             "Use 'scale_factor' in fid_params instead"
@@ -776,22 +776,18 @@ def optimize_pulse_unitary(
         )
 
     if max_metric_corr is not None:
-        if isinstance(method_params, dict):
-            if "max_metric_corr" not in method_params:
-                method_params["max_metric_corr"] = max_metric_corr
-        else:
-            method_params = {"max_metric_corr": max_metric_corr}
+        method_params = _default_param(
+            method_params, "max_metric_corr", max_metric_corr
+        )
         _param_deprecation(
             "The 'max_metric_corr' parameter is deprecated. "
             "Use 'max_metric_corr' in method_params instead"
         )
 
     if accuracy_factor is not None:
-        if isinstance(method_params, dict):
-            if "accuracy_factor" not in method_params:
-                method_params["accuracy_factor"] = accuracy_factor
-        else:
-            method_params = {"accuracy_factor": accuracy_factor}
+        method_params = _default_param(
+            method_params, "accuracy_factor", accuracy_factor
+        )
         _param_deprecation(
             "The 'accuracy_factor' parameter is deprecated. "
             "Use 'accuracy_factor' in method_params instead"
@@ -812,11 +808,7 @@ def optimize_pulse_unitary(
     # phase_option is still valid for this method
     # pass it via the fid_params
     if phase_option is not None:
-        if fid_params is None:
-            fid_params = {"phase_option": phase_option}
-        else:
-            if "phase_option" not in fid_params:
-                fid_params["phase_option"] = phase_option
+        fid_params = _default_param(fid_params, "phase_option", phase_option)
 
     return optimize_pulse(
         drift=H_d,
@@ -1108,6 +1100,7 @@ def opt_pulse_crab(
             "init_coeff_scaling": init_coeff_scaling,
         }
     else:
+        alg_params = dict(alg_params)
         if num_coeffs is not None and "num_coeffs" not in alg_params:
             alg_params["num_coeffs"] = num_coeffs
         if (
@@ -1122,6 +1115,8 @@ def opt_pulse_crab(
     if guess_pulse_type:
         if not isinstance(guess_pulse_params, dict):
             guess_pulse_params = {}
+        else:
+            guess_pulse_params = dict(guess_pulse_params)
         if (
             guess_pulse_scaling is not None
             and "scaling" not in guess_pulse_params
@@ -1421,6 +1416,7 @@ def opt_pulse_crab_unitary(
             "init_coeff_scaling": init_coeff_scaling,
         }
     else:
+        alg_params = dict(alg_params)
         if num_coeffs is not None and "num_coeffs" not in alg_params:
             alg_params["num_coeffs"] = num_coeffs
         if (
@@ -1435,6 +1431,8 @@ def opt_pulse_crab_unitary(
     if guess_pulse_type:
         if not isinstance(guess_pulse_params, dict):
             guess_pulse_params = {}
+        else:
+            guess_pulse_params = dict(guess_pulse_params)
         if (
             guess_pulse_scaling is not None
             and "scaling" not in guess_pulse_params
@@ -1772,22 +1770,18 @@ def create_pulse_optimizer(
         )
 
     if max_metric_corr is not None:
-        if isinstance(method_params, dict):
-            if "max_metric_corr" not in method_params:
-                method_params["max_metric_corr"] = max_metric_corr
-        else:
-            method_params = {"max_metric_corr": max_metric_corr}
+        method_params = _default_param(
+            method_params, "max_metric_corr", max_metric_corr
+        )
         _param_deprecation(
             "The 'max_metric_corr' parameter is deprecated. "
             "Use 'max_metric_corr' in method_params instead"
         )
 
     if accuracy_factor is not None:
-        if isinstance(method_params, dict):
-            if "accuracy_factor" not in method_params:
-                method_params["accuracy_factor"] = accuracy_factor
-        else:
-            method_params = {"accuracy_factor": accuracy_factor}
+        method_params = _default_param(
+            method_params, "accuracy_factor", accuracy_factor
+        )
         _param_deprecation(
             "The 'accuracy_factor' parameter is deprecated. "
             "Use 'accuracy_factor' in method_params instead"
@@ -1795,11 +1789,7 @@ def create_pulse_optimizer(
 
     # phase_option
     if phase_option is not None:
-        if isinstance(fid_params, dict):
-            if "phase_option" not in fid_params:
-                fid_params["phase_option"] = phase_option
-        else:
-            fid_params = {"phase_option": phase_option}
+        fid_params = _default_param(fid_params, "phase_option", phase_option)
         _param_deprecation(
             "The 'phase_option' parameter is deprecated. "
             "Use 'phase_option' in fid_params instead"
@@ -1807,11 +1797,9 @@ def create_pulse_optimizer(
 
     # fid_err_scale_factor
     if fid_err_scale_factor is not None:
-        if isinstance(fid_params, dict):
-            if "scale_factor" not in fid_params:
-                fid_params["scale_factor"] = fid_err_scale_factor
-        else:
-            fid_params = {"scale_factor": fid_err_scale_factor}
+        fid_params = _default_param(
+            fid_params, "scale_factor", fid_err_scale_factor
+        )
         _param_deprecation(
             "The 'fid_err_scale_factor' parameter is deprecated. "
             "Use 'scale_factor' in fid_params instead"
-- 
2.43.0


From 5e562bdfbd5e7db7692c69f065025d212d1475f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:45 +0000
Subject: [PATCH 30/78] fix: tslot_params were not passed on to the optimiser

---
 src/qutip_qtrl/pulseoptim.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index ffc6d6d..0f5df4e 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -453,6 +453,8 @@ def optimize_pulse(
         prop_params=prop_params,
         fid_type=fid_type,
         fid_params=fid_params,
+        tslot_type=tslot_type,
+        tslot_params=tslot_params,
         init_pulse_type=init_pulse_type,
         init_pulse_params=init_pulse_params,
         pulse_scaling=pulse_scaling,
@@ -833,6 +835,8 @@ def optimize_pulse_unitary(
         dyn_params=dyn_params,
         prop_params=prop_params,
         fid_params=fid_params,
+        tslot_type=tslot_type,
+        tslot_params=tslot_params,
         init_pulse_type=init_pulse_type,
         init_pulse_params=init_pulse_params,
         pulse_scaling=pulse_scaling,
-- 
2.43.0


From d65a1e1c0b67326e89c3be8c817ee906572fd725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:29 +0000
Subject: [PATCH 31/78] fix: amplitude limits of zero and limit arrays were
 ignored by CRAB

---
 src/qutip_qtrl/pulseoptim.py | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index 0f5df4e..f9ce4e2 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -103,6 +103,16 @@ def _default_param(params, key, value):
     return params
 
 
+def _ctrl_bound(bound, ctrl):
+    """
+    Returns the amplitude bound for the control (index). The bound may be one
+    value for all controls, or a list or array with one for each
+    """
+    if bound is None or np.ndim(bound) == 0:
+        return bound
+    return bound[ctrl] if ctrl < len(bound) else bound[-1]
+
+
 def optimize_pulse(
     drift,
     ctrls,
@@ -2045,24 +2055,8 @@ def create_pulse_optimizer(
             if isinstance(crab_pulse_params, dict):
                 crab_pgen.apply_params(crab_pulse_params)
 
-            lb = None
-            if amp_lbound:
-                if isinstance(amp_lbound, list):
-                    try:
-                        lb = amp_lbound[j]
-                    except Exception:
-                        lb = amp_lbound[-1]
-                else:
-                    lb = amp_lbound
-            ub = None
-            if amp_ubound:
-                if isinstance(amp_ubound, list):
-                    try:
-                        ub = amp_ubound[j]
-                    except Exception:
-                        ub = amp_ubound[-1]
-                else:
-                    ub = amp_ubound
+            lb = _ctrl_bound(amp_lbound, j)
+            ub = _ctrl_bound(amp_ubound, j)
             crab_pgen.lbound = lb
             crab_pgen.ubound = ub
 
-- 
2.43.0


From 2eccd7911c5d298fbe5fb0075dad6ebb4a094c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:00 +0000
Subject: [PATCH 32/78] fix: initial pulses with different limits for each
 control

---
 src/qutip_qtrl/pulseoptim.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index f9ce4e2..eda3dcb 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -113,6 +113,16 @@ def _ctrl_bound(bound, ctrl):
     return bound[ctrl] if ctrl < len(bound) else bound[-1]
 
 
+def _common_bound(bound, num_ctrls, tightest):
+    """
+    Returns the amplitude bound that keeps a pulse within the bounds of
+    every control
+    """
+    bounds = [_ctrl_bound(bound, j) for j in range(num_ctrls)]
+    bounds = [b for b in bounds if b is not None]
+    return tightest(bounds) if bounds else None
+
+
 def optimize_pulse(
     drift,
     ctrls,
@@ -489,6 +499,11 @@ def optimize_pulse(
     else:
         pgen = optim.pulse_generator
         for j in range(dyn.num_ctrls):
+            # the limits may be different for each control
+            if np.ndim(amp_lbound) > 0:
+                pgen.lbound = _ctrl_bound(amp_lbound, j)
+            if np.ndim(amp_ubound) > 0:
+                pgen.ubound = _ctrl_bound(amp_ubound, j)
             init_amps[:, j] = pgen.gen_pulse()
 
     # Initialise the starting amplitudes
@@ -2081,8 +2096,8 @@ def create_pulse_optimizer(
         )
         pgen.scaling = pulse_scaling
         pgen.offset = pulse_offset
-        pgen.lbound = amp_lbound
-        pgen.ubound = amp_ubound
+        pgen.lbound = _common_bound(amp_lbound, n_ctrls, max)
+        pgen.ubound = _common_bound(amp_ubound, n_ctrls, min)
 
         optim.pulse_generator = pgen
 
-- 
2.43.0


From 3729f8afeaeb7d7e0f3cd83644834ad6563768db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:08 +0000
Subject: [PATCH 33/78] fix: scaling and offset in init_pulse_params were
 overridden

---
 src/qutip_qtrl/pulseoptim.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index eda3dcb..bf8d70a 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -2094,8 +2094,10 @@ def create_pulse_optimizer(
         pgen = pulsegen.create_pulse_gen(
             pulse_type=init_pulse_type, dyn=dyn, pulse_params=init_pulse_params
         )
-        pgen.scaling = pulse_scaling
-        pgen.offset = pulse_offset
+        if "scaling" not in (init_pulse_params or {}):
+            pgen.scaling = pulse_scaling
+        if "offset" not in (init_pulse_params or {}):
+            pgen.offset = pulse_offset
         pgen.lbound = _common_bound(amp_lbound, n_ctrls, max)
         pgen.ubound = _common_bound(amp_ubound, n_ctrls, min)
 
-- 
2.43.0


From f39737e493f3206d78d1dca4c17d723c9faff42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:30 +0000
Subject: [PATCH 34/78] fix: alg="crab" was accepted but failed

---
 src/qutip_qtrl/pulseoptim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index bf8d70a..e4e8ca1 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -491,7 +491,7 @@ def optimize_pulse(
     # Generate initial pulses for each control
     init_amps = np.zeros([dyn.num_tslots, dyn.num_ctrls])
 
-    if alg == "CRAB":
+    if _upper_safe(alg) == "CRAB":
         for j in range(dyn.num_ctrls):
             pgen = optim.pulse_generator[j]
             pgen.init_pulse()
@@ -1972,7 +1972,7 @@ def create_pulse_optimizer(
         else:
             optim = optimizer.Optimizer(cfg, dyn)
 
-    optim.alg = alg
+    optim.alg = alg_up
     optim.method = optim_method
     optim.amp_lbound = amp_lbound
     optim.amp_ubound = amp_ubound
-- 
2.43.0


From 5203aa54068c52386b54f16c23955a4826c8226d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:41 +0000
Subject: [PATCH 35/78] fix: CRAB with fmin_bfgs or fmin_l_bfgs_b ran a
 different algorithm

---
 src/qutip_qtrl/pulseoptim.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index e4e8ca1..2a8be2a 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -1950,6 +1950,17 @@ def create_pulse_optimizer(
             "Optimisation method must be specified "
             "via 'optim_method' parameter"
         )
+    elif alg_up == "CRAB" and optim_method_up in (
+        "FMIN_BFGS",
+        "LBFGSB",
+        "FMIN_L_BFGS_B",
+    ):
+        # these optimise the amplitudes themselves
+        raise errors.UsageError(
+            "Invalid optim_method '{}' for '{}' algorthim".format(
+                optim_method, alg
+            )
+        )
     elif optim_method_up == "FMIN_BFGS":
         optim = optimizer.OptimizerBFGS(cfg, dyn)
     elif optim_method_up == "LBFGSB" or optim_method_up == "FMIN_L_BFGS_B":
-- 
2.43.0


From 98ce90d334e56fd4c2aaf1b6aa7a9005ba4087f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:21 +0000
Subject: [PATCH 36/78] fix: initial pulses ignored limits given in
 optim_params

---
 src/qutip_qtrl/pulseoptim.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index 2a8be2a..a2c78cf 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -500,10 +500,10 @@ def optimize_pulse(
         pgen = optim.pulse_generator
         for j in range(dyn.num_ctrls):
             # the limits may be different for each control
-            if np.ndim(amp_lbound) > 0:
-                pgen.lbound = _ctrl_bound(amp_lbound, j)
-            if np.ndim(amp_ubound) > 0:
-                pgen.ubound = _ctrl_bound(amp_ubound, j)
+            if np.ndim(optim.amp_lbound) > 0:
+                pgen.lbound = _ctrl_bound(optim.amp_lbound, j)
+            if np.ndim(optim.amp_ubound) > 0:
+                pgen.ubound = _ctrl_bound(optim.amp_ubound, j)
             init_amps[:, j] = pgen.gen_pulse()
 
     # Initialise the starting amplitudes
@@ -1988,6 +1988,9 @@ def create_pulse_optimizer(
     optim.amp_lbound = amp_lbound
     optim.amp_ubound = amp_ubound
     optim.apply_params(optim_params)
+    # the bounds may have been given in the optim_params
+    amp_lbound = optim.amp_lbound
+    amp_ubound = optim.amp_ubound
 
     # Create the TerminationConditions instance
     tc = termcond.TerminationConditions()
-- 
2.43.0


From 4e08b923756d1d85fea860ffaf374c4da844ebd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:41 +0000
Subject: [PATCH 37/78] fix: documented fid_type TD_APPROX was rejected

---
 src/qutip_qtrl/pulseoptim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index a2c78cf..e3a312d 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -1925,7 +1925,7 @@ def create_pulse_optimizer(
     if fid_type_up == "DEF" or fid_type_up is None or fid_type_up == "":
         # None given, use the default for the Dynamics
         pass
-    elif fid_type_up == "TDAPPROX":
+    elif fid_type_up == "TDAPPROX" or fid_type_up == "TD_APPROX":
         if not isinstance(dyn.fid_computer, fidcomp.FidCompTraceDiffApprox):
             dyn.fid_computer = fidcomp.FidCompTraceDiffApprox(dyn)
     elif fid_type_up == "TRACEDIFF":
-- 
2.43.0


From cd63562a5f2a067bbb355828b634321ad7c0310b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:52 +0000
Subject: [PATCH 38/78] fix: RNDWALK2 pulses ignored the scaling of the
 gradient changes

---
 src/qutip_qtrl/pulsegen.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index 2420ee7..55e5f92 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -596,21 +596,18 @@ class PulseGenRndWalk2(PulseGen):
         if max_d2_amp is not None:
             self.max_d2_amp = max_d2_amp
 
-        max_d2_amp = self.max_d2_amp
+        max_d2_amp = self.max_d2_amp * self.scaling
 
         if not self._pulse_initialised:
             self.init_pulse()
 
         walk = np.zeros(self.tau.shape)
         amp = self.scaling * (np.random.rand() * 2 - 1)
-        print("Start amp {}".format(amp))
         grad = 0.0
-        print("Start grad {}".format(grad))
         for k in range(len(walk)):
             walk[k] = amp
             grad += (np.random.rand() * 2 - 1) * max_d2_amp
             amp += grad
-            # print("grad {}".format(grad))
 
         return self._apply_bounds_and_offset(walk)
 
-- 
2.43.0


From 9f4317db4d5863e0f4ed9f15295cf67e33e29047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:05 +0000
Subject: [PATCH 39/78] fix: gradient of linear pulses was ignored

---
 src/qutip_qtrl/pulsegen.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index 55e5f92..eaa42f8 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -639,8 +639,10 @@ class PulseGenLinear(PulseGen):
 
         self.gradient = None
         self.start_val = -1.0
-        self.end_val = 1.0
+        self.end_val = None
         self.apply_params()
+        if self.gradient is None and self.end_val is None:
+            self.end_val = 1.0
 
     def init_pulse(self, gradient=None, start_val=None, end_val=None):
         """
@@ -648,14 +650,24 @@ class PulseGenLinear(PulseGen):
         end point values
         """
         PulseGen.init_pulse(self)
-        if start_val is not None and end_val is not None:
+        if start_val is not None:
             self.start_val = start_val
+        if end_val is not None:
             self.end_val = end_val
+        elif gradient is not None:
+            # the line is defined by the start value and the gradient
+            self.gradient = gradient
+            self.end_val = None
 
         if self.start_val is not None and self.end_val is not None:
-            self.gradient = float(self.end_val - self.start_val) / (
-                self.pulse_time - self.tau[-1]
-            )
+            line_time = np.sum(self.tau[:-1])
+            if line_time > 0:
+                self.gradient = (
+                    float(self.end_val - self.start_val) / line_time
+                )
+            else:
+                # only one timeslot
+                self.gradient = 0.0
 
     def gen_pulse(self, gradient=None, start_val=None, end_val=None):
         """
-- 
2.43.0


From 00d3d63a981def333f92a2e7e54377b2ee0a5770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:17 +0000
Subject: [PATCH 40/78] fix: number of waves calculated from wavelength or
 frequency

---
 src/qutip_qtrl/pulsegen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index eaa42f8..c0752a5 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -757,10 +757,10 @@ class PulseGenPeriodic(PulseGen):
             self.wavelen = 1.0 / self.freq
         elif self.wavelen is not None:
             self.freq = 1.0 / self.wavelen
-            self.num_waves = self.wavelen * self.pulse_time
+            self.num_waves = self.freq * self.pulse_time
         else:
             self.wavelen = 1.0 / self.freq
-            self.num_waves = self.wavelen * self.pulse_time
+            self.num_waves = self.freq * self.pulse_time
 
 
 class PulseGenSine(PulseGenPeriodic):
-- 
2.43.0


From 3dd2039f3dc8e81940cb6454d1435c10560743b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:29 +0000
Subject: [PATCH 41/78] fix: Gaussian pulse with a mean of zero

---
 src/qutip_qtrl/pulsegen.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index c0752a5..d306c32 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -921,11 +921,11 @@ class PulseGenGaussian(PulseGen):
         if not self._pulse_initialised:
             self.init_pulse()
 
-        if mean:
+        if mean is not None:
             Tm = mean
         else:
             Tm = self.mean
-        if variance:
+        if variance is not None:
             Tv = variance
         else:
             Tv = self.variance
@@ -969,7 +969,7 @@ class PulseGenGaussianEdge(PulseGen):
             self.init_pulse()
 
         t = self.time
-        if decay_time:
+        if decay_time is not None:
             Td = decay_time
         else:
             Td = self.decay_time
-- 
2.43.0


From 3de3d36ca34023d67a711209cf53544f32ee2db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:08 +0000
Subject: [PATCH 42/78] fix: stand-alone pulse generators did not take the
 timeslots from tau

---
 src/qutip_qtrl/pulsegen.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index d306c32..daf26fd 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -181,8 +181,11 @@ class PulseGen:
         self.lbound = None
         self.ubound = None
         self.ramping_pulse = None
+        self._equal_tau = None
 
         self.apply_params()
+        if self.tau is not None:
+            self._init_timeslots()
 
     def apply_params(self, params=None):
         """
@@ -222,16 +225,32 @@ class PulseGen:
             " Suspect base class was used where sub class should have been"
         )
 
-    def init_pulse(self):
+    def _init_timeslots(self):
         """
-        Initialise the pulse parameters
+        The timeslots are those given by tau, if it has been set. Otherwise
+        num_tslots and pulse_time determine (equal) durations.
         """
-        if self.tau is None:
+        if self.tau is None or self.tau is self._equal_tau:
             self.tau = (
                 np.ones(self.num_tslots, dtype="f")
                 * self.pulse_time
                 / self.num_tslots
             )
+            self._equal_tau = self.tau
+        else:
+            self.tau = np.asarray(self.tau)
+            tau_time = self.tau.sum()
+            if len(self.tau) != self.num_tslots or not np.isclose(
+                tau_time, self.pulse_time
+            ):
+                self.num_tslots = len(self.tau)
+                self.pulse_time = tau_time
+
+    def init_pulse(self):
+        """
+        Initialise the pulse parameters
+        """
+        self._init_timeslots()
 
         if self._uses_time:
             self.time = np.zeros(self.num_tslots, dtype=float)
-- 
2.43.0


From f6f7d204c3af47302bfcecc68dc8c1a3a604e7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:52 +0000
Subject: [PATCH 43/78] fix: CRAB coefficients were shared with the array
 passed in

---
 src/qutip_qtrl/pulsegen.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index daf26fd..9ded7a3 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -1173,7 +1173,8 @@ class PulseGenCrab(PulseGen):
         self.set_coeffs(param_vals)
 
     def set_coeffs(self, param_vals):
-        self.coeffs = param_vals.reshape(
+        # copied, as the values passed may be changed by the optimisation method
+        self.coeffs = np.array(param_vals, dtype=float).reshape(
             [self.num_coeffs, self.num_basis_funcs]
         )
 
-- 
2.43.0


From acca09fb4486739c7203546c37d917629bee6b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:02 +0000
Subject: [PATCH 44/78] fix: coefficients given to gen_pulse of the CRAB pulse
 generator

---
 src/qutip_qtrl/pulsegen.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index 9ded7a3..4709bec 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -1340,12 +1340,12 @@ class PulseGenCrabFourier(PulseGenCrab):
             If given this overides the default and sets the attribute
             of the same name.
         """
-        if coeffs:
-            self.coeffs = coeffs
-
         if not self._pulse_initialised:
             self.init_pulse()
 
+        if coeffs is not None:
+            self.set_coeffs(coeffs)
+
         pulse = np.zeros(self.num_tslots)
 
         for i in range(self.num_coeffs):
-- 
2.43.0


From cb2526f8a766e68d88ebc3950713bc1ce2b57af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:11 +0000
Subject: [PATCH 45/78] fix: invalid guess pulse action raised instead of being
 ignored

---
 src/qutip_qtrl/pulsegen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index 4709bec..795493d 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -1181,13 +1181,13 @@ class PulseGenCrab(PulseGen):
     def init_guess_pulse(self):
         self.guess_pulse_func = None
         if not self.guess_pulse_action:
-            logger.WARN("No guess pulse action given, hence ignored.")
+            logger.warning("No guess pulse action given, hence ignored.")
         elif self.guess_pulse_action.upper() == "MODULATE":
             self.guess_pulse_func = self.guess_pulse_modulate
         elif self.guess_pulse_action.upper() == "ADD":
             self.guess_pulse_func = self.guess_pulse_add
         else:
-            logger.WARN(
+            logger.warning(
                 "No option for guess pulse action '{}' "
                 ", hence ignored.".format(self.guess_pulse_action)
             )
-- 
2.43.0


From a98698aa50feb109d95b15a326c2ac64539edc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:21 +0000
Subject: [PATCH 46/78] fix: frequency options of the CRAB pulse generator in
 params or after reset

---
 src/qutip_qtrl/pulsegen.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index 795493d..91700ca 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -1290,11 +1290,8 @@ class PulseGenCrabFourier(PulseGenCrab):
     """
 
     def __init__(self, dyn=None, num_coeffs=None, params=None, fix_freqs=True):
+        self._init_fix_freqs = fix_freqs
         PulseGenCrab.__init__(self, dyn, num_coeffs, params)
-        self.fix_freqs = fix_freqs
-        if not self.fix_freqs:
-            # additional parameter for the frequency
-            self.num_basis_funcs += 1
 
     def reset(self):
         """
@@ -1303,6 +1300,18 @@ class PulseGenCrabFourier(PulseGenCrab):
         PulseGenCrab.reset(self)
         self.freqs = None
         self.randomize_freqs = True
+        self.fix_freqs = self._init_fix_freqs
+        self.apply_params()
+
+    @property
+    def fix_freqs(self):
+        return self._fix_freqs
+
+    @fix_freqs.setter
+    def fix_freqs(self, value):
+        self._fix_freqs = value
+        # additional parameter for the frequency, if it is not fixed
+        self.num_basis_funcs = 2 if value else 3
 
     def init_pulse(self, num_coeffs=None, init_coeffs=None):
         """
-- 
2.43.0


From 8d0f946e4819b50c69cabf13c547cb8f85dbc4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:46 +0000
Subject: [PATCH 47/78] fix: dumping FULL left out evolutions when the fidelity
 computer is replaced

---
 src/qutip_qtrl/dump.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/qutip_qtrl/dump.py b/src/qutip_qtrl/dump.py
index f86d900..13aa18c 100644
--- a/src/qutip_qtrl/dump.py
+++ b/src/qutip_qtrl/dump.py
@@ -574,13 +574,12 @@ class DynamicsDump(Dump):
                 self.dump_prop,
                 self.dump_prop_grad,
                 self.dump_fwd_evo,
-                self.dump_onwd_evo == dyn.fid_computer.uses_onwd_evo,
-                self.dump_onto_evo == dyn.fid_computer.uses_onto_evo,
+                self.dump_onwd_evo or not dyn.fid_computer.uses_onwd_evo,
+                self.dump_onto_evo or not dyn.fid_computer.uses_onto_evo,
             ]
         )
 
     def _apply_level(self, level=None):
-        dyn = self.parent
         if level is None:
             level = self._level
 
@@ -611,8 +610,9 @@ class DynamicsDump(Dump):
             self.dump_prop = True
             self.dump_prop_grad = True
             self.dump_fwd_evo = True
-            self.dump_onwd_evo = dyn.fid_computer.uses_onwd_evo
-            self.dump_onto_evo = dyn.fid_computer.uses_onto_evo
+            # only recorded if used by the fidelity computer at that time
+            self.dump_onwd_evo = True
+            self.dump_onto_evo = True
         else:
             raise ValueError("No option for dumping level '{}'".format(level))
 
@@ -632,9 +632,9 @@ class DynamicsDump(Dump):
             item.prop_grad = copy.deepcopy(dyn._prop_grad)
         if self.dump_fwd_evo:
             item.fwd_evo = copy.deepcopy(dyn._fwd_evo)
-        if self.dump_onwd_evo:
+        if self.dump_onwd_evo and dyn.fid_computer.uses_onwd_evo:
             item.onwd_evo = copy.deepcopy(dyn._onwd_evo)
-        if self.dump_onto_evo:
+        if self.dump_onto_evo and dyn.fid_computer.uses_onto_evo:
             item.onto_evo = copy.deepcopy(dyn._onto_evo)
 
         if self.write_to_file:
-- 
2.43.0


From da10f776deb3c1dbfeca991569dfcd0ec33babb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 48/78] fix: starting amplitudes given as an array with
 u_limits

---
 src/qutip_qtrl/grape.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qutip_qtrl/grape.py b/src/qutip_qtrl/grape.py
index 6c4b5e2..608635d 100644
--- a/src/qutip_qtrl/grape.py
+++ b/src/qutip_qtrl/grape.py
@@ -157,7 +157,7 @@ def grape_unitary(
     if u_limits:
         warnings.warn("Caution: Using experimental feature u_limits")
 
-    if u_limits and u_start:
+    if u_limits and u_start is not None:
         # make sure that no values in u0 violates the u_limits conditions
         u_start = np.array(u_start)
         u_start[u_start < u_limits[0]] = u_limits[0]
@@ -333,7 +333,7 @@ def cy_grape_unitary(
     if u_limits:
         warnings.warn("Causion: Using experimental feature u_limits")
 
-    if u_limits and u_start:
+    if u_limits and u_start is not None:
         # make sure that no values in u0 violates the u_limits conditions
         u_start = np.array(u_start)
         u_start[u_start < u_limits[0]] = u_limits[0]
@@ -523,7 +523,7 @@ def grape_unitary_adaptive(
     if u_limits:
         warnings.warn("Causion: Using experimental feature u_limits")
 
-    if u_limits and u_start:
+    if u_limits and u_start is not None:
         # make sure that no values in u0 violates the u_limits conditions
         u_start = np.array(u_start)
         u_start[u_start < u_limits[0]] = u_limits[0]
-- 
2.43.0


From 4cd048f3065db738259f35aaea28684dee2a1a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 49/78] fix: late penalty of grape_unitary

---
 src/qutip_qtrl/grape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/grape.py b/src/qutip_qtrl/grape.py
index 608635d..490cd07 100644
--- a/src/qutip_qtrl/grape.py
+++ b/src/qutip_qtrl/grape.py
@@ -230,7 +230,7 @@ def grape_unitary(
 
                 if beta:
                     # penalty term for late control signals u
-                    du += -2 * beta * m * u[r, j, m] * dt
+                    du += -2 * beta * m**2 * u[r, j, m] * dt
 
                 u[r + 1, j, m] = u[r, j, m] + eps * du.real
 
-- 
2.43.0


From 9dab73c67073dc59c8dad472dc40c59e3b4cb52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 50/78] fix: final evolution of the GRAPE routines

---
 src/qutip_qtrl/grape.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/qutip_qtrl/grape.py b/src/qutip_qtrl/grape.py
index 490cd07..5e76788 100644
--- a/src/qutip_qtrl/grape.py
+++ b/src/qutip_qtrl/grape.py
@@ -242,6 +242,13 @@ def grape_unitary(
 
             u[r + 1, j, -1] = u[r + 1, j, -2]
 
+    # the evolution realised by the final amplitudes
+    dt = times[1] - times[0]
+    U_f = qeye(U.dims[0])
+    for idx in range(M - 1):
+        H_idx = H0 + sum([u[-1, j, idx] * H_ops[j] for j in range(J)])
+        U_f = (-1j * H_idx * dt).expm() @ U_f
+
     if use_interp:
         ip_funcs = [
             interp1d(
@@ -262,8 +269,8 @@ def grape_unitary(
 
     progress_bar.finished()
 
-    # return U_f_list[-1], H_td_func, u
-    return GRAPEResult(u=u, U_f=U_f_list[-1], H_t=H_td_func)
+    # return U_f, H_td_func, u
+    return GRAPEResult(u=u, U_f=U_f, H_t=H_td_func)
 
 
 def cy_grape_unitary(
@@ -425,6 +432,13 @@ def cy_grape_unitary(
             u_max,
         )
 
+    # the evolution realised by the final amplitudes
+    dt = times[1] - times[0]
+    U_f = qeye(U.dims[0])
+    for idx in range(M - 1):
+        H_idx = H0 + sum([u[-1, j, idx] * H_ops[j] for j in range(J)])
+        U_f = (-1j * H_idx * dt).expm() @ U_f
+
     if use_interp:
         ip_funcs = [
             interp1d(
@@ -445,7 +459,7 @@ def cy_grape_unitary(
 
     progress_bar.finished()
 
-    return GRAPEResult(u=u, U_f=Qobj(U_f_list[-1], dims=U.dims), H_t=H_td_func)
+    return GRAPEResult(u=u, U_f=U_f, H_t=H_td_func)
 
 
 def grape_unitary_adaptive(
-- 
2.43.0


From 4b4e10335f58fb40a595a51f243f6073f51e5a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:58 +0000
Subject: [PATCH 51/78] fix: late penalty of grape_unitary_adaptive

---
 src/qutip_qtrl/grape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/grape.py b/src/qutip_qtrl/grape.py
index 5e76788..5e9e20d 100644
--- a/src/qutip_qtrl/grape.py
+++ b/src/qutip_qtrl/grape.py
@@ -645,7 +645,7 @@ def grape_unitary_adaptive(
 
                 if beta:
                     # penalty term for late control signals u
-                    du += -2 * beta * k**2 * u[r, j, k] * dt
+                    du += -2 * beta * m**2 * u[r, j, m, best_k] * dt
 
                 for k, eps_val in enumerate(eps_vec):
                     u[r + 1, j, m, k] = u[r, j, m, k] + eps_val * du.real
-- 
2.43.0


From 4566712625e755437b8aef7754a291ca0ae47394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 52/78] fix: amplitudes returned by grape_unitary_adaptive

---
 src/qutip_qtrl/grape.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/qutip_qtrl/grape.py b/src/qutip_qtrl/grape.py
index 5e9e20d..358b1b7 100644
--- a/src/qutip_qtrl/grape.py
+++ b/src/qutip_qtrl/grape.py
@@ -568,7 +568,8 @@ def grape_unitary_adaptive(
     for r in range(R - 1):
         progress_bar.update()
 
-        _r = r
+        # index of the last amplitudes calculated
+        _r = r + 1
         eps_log[r] = eps_vec[best_k]
 
         logger.debug("eps_vec: {}".format(eps_vec))
@@ -692,6 +693,9 @@ def grape_unitary_adaptive(
 
             _prev_overlap = _k_overlap[best_k]
 
+            # continue from the accepted amplitudes
+            u[r + 1, :, :, :] = u[r + 1, :, :, best_k, np.newaxis].copy()
+
         overlap_log[r] = _k_overlap[best_k]
 
         if overlap_terminate < 1.0:
@@ -702,6 +706,13 @@ def grape_unitary_adaptive(
         logger.debug("Time 4: %fs", time.time() - _t0)
         _t0 = time.time()
 
+    # the evolution realised by the final amplitudes
+    dt = times[1] - times[0]
+    U_f = qeye(U.dims[0])
+    for idx in range(M - 1):
+        H_idx = H0 + sum([u[_r, j, idx, best_k] * H_ops[j] for j in range(J)])
+        U_f = (-1j * H_idx * dt).expm() @ U_f
+
     if use_interp:
         ip_funcs = [
             interp1d(
@@ -709,7 +720,7 @@ def grape_unitary_adaptive(
                 u[_r, j, :, best_k],
                 kind=interp_kind,
                 bounds_error=False,
-                fill_value=u[R - 1, j, -1],
+                fill_value=u[_r, j, -1, best_k],
             )
             for j in range(J)
         ]
@@ -722,7 +733,9 @@ def grape_unitary_adaptive(
 
     progress_bar.finished()
 
-    result = GRAPEResult(u=u[:_r, :, :, best_k], U_f=Uf[best_k], H_t=H_td_func)
+    result = GRAPEResult(
+        u=u[: _r + 1, :, :, best_k], U_f=U_f, H_t=H_td_func
+    )
 
     result.eps = eps_log
     result.overlap = overlap_log
-- 
2.43.0


From 38985132238ec5bb16ed0356056031f6f1402755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 53/78] fix: first step of grape_unitary_adaptive

---
 src/qutip_qtrl/grape.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/grape.py b/src/qutip_qtrl/grape.py
index 358b1b7..abd0706 100644
--- a/src/qutip_qtrl/grape.py
+++ b/src/qutip_qtrl/grape.py
@@ -563,7 +563,13 @@ def grape_unitary_adaptive(
 
     best_k = 1
     _r = 0
-    _prev_overlap = 0
+    # overlap of the starting amplitudes
+    dt = times[1] - times[0]
+    U_f = qeye(U.dims[0])
+    for idx in range(M - 1):
+        H_idx = H0 + sum([u[0, j, idx, best_k] * H_ops[j] for j in range(J)])
+        U_f = (-1j * H_idx * dt).expm() @ U_f
+    _prev_overlap = _fidelity_function(cy_overlap(U_f.data, U.data)).real
 
     for r in range(R - 1):
         progress_bar.update()
-- 
2.43.0


From c898b0d7471dc5be2c648d83c8ca8f2fd947d3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 54/78] fix: dumping level CUSTOM raised

---
 src/qutip_qtrl/dump.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/qutip_qtrl/dump.py b/src/qutip_qtrl/dump.py
index 13aa18c..257b257 100644
--- a/src/qutip_qtrl/dump.py
+++ b/src/qutip_qtrl/dump.py
@@ -137,8 +137,8 @@ class Dump:
 
     @level.setter
     def level(self, value):
-        self._level = value
-        self._apply_level()
+        self._apply_level(value)
+        self._level = value.upper()
 
     @property
     def dump_any(self):
@@ -256,8 +256,9 @@ class OptimDump(Dump):
         if not isinstance(optim, Optimizer):
             raise TypeError("Must instantiate with {} type".format(Optimizer))
         self.parent = optim
-        self._level = level
+        self._level = "SUMMARY"
         self.reset()
+        self.level = level
 
     def reset(self):
         Dump.reset(self)
@@ -295,7 +296,7 @@ class OptimDump(Dump):
         if level == "CUSTOM":
             if self._level == "CUSTOM":
                 # dumping level has not changed keep the same specific config
-                pass
+                return
             else:
                 # Switching to custom, start from SUMMARY
                 level = "SUMMARY"
@@ -534,8 +535,9 @@ class DynamicsDump(Dump):
         if not isinstance(dynamics, Dynamics):
             raise TypeError("Must instantiate with {} type".format(Dynamics))
         self.parent = dynamics
-        self._level = level
+        self._level = "SUMMARY"
         self.reset()
+        self.level = level
 
     def reset(self):
         Dump.reset(self)
@@ -589,7 +591,7 @@ class DynamicsDump(Dump):
         if level == "CUSTOM":
             if self._level == "CUSTOM":
                 # dumping level has not changed keep the same specific config
-                pass
+                return
             else:
                 # Switching to custom, start from SUMMARY
                 level = "SUMMARY"
-- 
2.43.0


From b9616b1b8b2a5cfa5818d29cd53e9733efdd4455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:52 +0000
Subject: [PATCH 55/78] fix: operators written to dump files

---
 src/qutip_qtrl/dump.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/qutip_qtrl/dump.py b/src/qutip_qtrl/dump.py
index 257b257..08c2c90 100644
--- a/src/qutip_qtrl/dump.py
+++ b/src/qutip_qtrl/dump.py
@@ -12,6 +12,9 @@ import os
 import copy
 import numpy as np
 
+# QuTiP
+from qutip import Qobj
+
 # QuTiP control modules
 import qutip_qtrl.io as qtrlio
 
@@ -23,6 +26,13 @@ logger = qutip_qtrl.logging_utils.get_logger("qutip.control.dump")
 DUMP_DIR = "~/.qtrl_dump"
 
 
+def _as_array(oper):
+    """Array of the operator for savetxt, which cannot write a Qobj"""
+    if isinstance(oper, Qobj):
+        return oper.full()
+    return oper
+
+
 class Dump:
     """
     A container for dump items.
@@ -843,7 +853,7 @@ class EvoCompDumpItem(DumpItem):
                         "dynamics generator for timeslot {}\n".format(k)
                     )
                 )
-                np.savetxt(f, self.dyn_gen[k], delimiter=dump.data_sep)
+                np.savetxt(f, _as_array(dg), delimiter=dump.data_sep)
                 k += 1
             if closef:
                 f.close()
@@ -858,9 +868,9 @@ class EvoCompDumpItem(DumpItem):
                 fname = "{}-prop.{}".format(fnbase, dump.dump_file_ext)
                 f = open(os.path.join(dump.dump_dir, fname), "wb")
                 closef = True
-            for dg in self.dyn_gen:
+            for prop in self.prop:
                 f.write(str.encode("Propagator for timeslot {}\n".format(k)))
-                np.savetxt(f, self.prop[k], delimiter=dump.data_sep)
+                np.savetxt(f, _as_array(prop), delimiter=dump.data_sep)
                 k += 1
             if closef:
                 f.close()
@@ -884,7 +894,9 @@ class EvoCompDumpItem(DumpItem):
                         )
                     )
                     np.savetxt(
-                        f, self.prop_grad[k, j], delimiter=dump.data_sep
+                        f,
+                        _as_array(self.prop_grad[k, j]),
+                        delimiter=dump.data_sep,
                     )
             if closef:
                 f.close()
@@ -899,9 +911,9 @@ class EvoCompDumpItem(DumpItem):
                 fname = "{}-fwd_evo.{}".format(fnbase, dump.dump_file_ext)
                 f = open(os.path.join(dump.dump_dir, fname), "wb")
                 closef = True
-            for dg in self.dyn_gen:
+            for evo in self.fwd_evo:
                 f.write(str.encode("Evolution from 0 to {}\n".format(k)))
-                np.savetxt(f, self.fwd_evo[k], delimiter=dump.data_sep)
+                np.savetxt(f, _as_array(evo), delimiter=dump.data_sep)
                 k += 1
             if closef:
                 f.close()
@@ -916,9 +928,9 @@ class EvoCompDumpItem(DumpItem):
                 fname = "{}-onwd_evo.{}".format(fnbase, dump.dump_file_ext)
                 f = open(os.path.join(dump.dump_dir, fname), "wb")
                 closef = True
-            for dg in self.dyn_gen:
+            for evo in self.onwd_evo:
                 f.write(str.encode("Evolution from {} to end\n".format(k)))
-                np.savetxt(f, self.fwd_evo[k], delimiter=dump.data_sep)
+                np.savetxt(f, _as_array(evo), delimiter=dump.data_sep)
                 k += 1
             if closef:
                 f.close()
@@ -933,11 +945,11 @@ class EvoCompDumpItem(DumpItem):
                 fname = "{}-onto_evo.{}".format(fnbase, dump.dump_file_ext)
                 f = open(os.path.join(dump.dump_dir, fname), "wb")
                 closef = True
-            for dg in self.dyn_gen:
+            for evo in self.onto_evo:
                 f.write(
                     str.encode("Evolution from {} onto target\n".format(k))
                 )
-                np.savetxt(f, self.fwd_evo[k], delimiter=dump.data_sep)
+                np.savetxt(f, _as_array(evo), delimiter=dump.data_sep)
                 k += 1
             if closef:
                 f.close()
-- 
2.43.0


From 2b38432fe58b589cbe733a88f442342a43038c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:03 +0000
Subject: [PATCH 56/78] fix: names of dump files

---
 src/qutip_qtrl/dump.py | 40 +++++++++++++---------------------------
 1 file changed, 13 insertions(+), 27 deletions(-)

diff --git a/src/qutip_qtrl/dump.py b/src/qutip_qtrl/dump.py
index 08c2c90..75ee826 100644
--- a/src/qutip_qtrl/dump.py
+++ b/src/qutip_qtrl/dump.py
@@ -203,28 +203,24 @@ class Dump:
         if not isinstance(value, str):
             raise ValueError("File name base must be a string")
         self._fname_base = value
-        self._summary_file_path = None
 
     @property
     def summary_file(self):
-        if self._summary_file_path is None:
-            fname = "{}-summary.{}".format(
-                self._fname_base, self.dump_file_ext
-            )
-            self._summary_file_path = os.path.join(self.dump_dir, fname)
-        return self._summary_file_path
+        if self._summary_file_specified:
+            return self._summary_file_path
+        # the directory, name base and extension may be changed at any time
+        fname = "{}-summary.{}".format(self._fname_base, self.dump_file_ext)
+        return os.path.join(self.dump_dir, fname)
 
     @summary_file.setter
     def summary_file(self, value):
         if not isinstance(value, str):
             raise ValueError("File path must be a string")
         self._summary_file_specified = True
-        if os.path.abspath(value):
-            self._summary_file_path = value
-        elif "~" in value:
-            self._summary_file_path = os.path.expanduser(value)
-        else:
-            self._summary_file_path = os.path.join(self.dump_dir, value)
+        value = os.path.expanduser(value)
+        if not os.path.isabs(value):
+            value = os.path.join(self.dump_dir, value)
+        self._summary_file_path = value
 
 
 class OptimDump(Dump):
@@ -278,8 +274,6 @@ class OptimDump(Dump):
         self.grad_norm_log = []
         self.grad_log = []
         self._fname_base = "optimdump"
-        self._fid_err_file = None
-        self._grad_norm_file = None
 
     def clear(self):
         del self.iter_summary[:]
@@ -350,12 +344,8 @@ class OptimDump(Dump):
 
     @property
     def fid_err_file(self):
-        if self._fid_err_file is None:
-            fname = "{}-fid_err_log.{}".format(
-                self.fname_base, self.dump_file_ext
-            )
-            self._fid_err_file = os.path.join(self.dump_dir, fname)
-        return self._fid_err_file
+        fname = "{}-fid_err_log.{}".format(self.fname_base, self.dump_file_ext)
+        return os.path.join(self.dump_dir, fname)
 
     def update_fid_err_log(self, fid_err):
         """add an entry to the fid_err log"""
@@ -371,12 +361,8 @@ class OptimDump(Dump):
 
     @property
     def grad_norm_file(self):
-        if self._grad_norm_file is None:
-            fname = "{}-grad_norm_log.{}".format(
-                self.fname_base, self.dump_file_ext
-            )
-            self._grad_norm_file = os.path.join(self.dump_dir, fname)
-        return self._grad_norm_file
+        fname = "{}-grad_norm_log.{}".format(self.fname_base, self.dump_file_ext)
+        return os.path.join(self.dump_dir, fname)
 
     def update_grad_norm_log(self, grad_norm):
         """add an entry to the grad_norm log"""
-- 
2.43.0


From faf2a6c1c9d193cb10042a7d20f0e98bcb2d15e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:12 +0000
Subject: [PATCH 57/78] fix: separator of gradients in single dump files

---
 src/qutip_qtrl/dump.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/dump.py b/src/qutip_qtrl/dump.py
index 75ee826..82732d2 100644
--- a/src/qutip_qtrl/dump.py
+++ b/src/qutip_qtrl/dump.py
@@ -467,7 +467,7 @@ class OptimDump(Dump):
                     fall.write(
                         str.encode("gradients (call {}):\n".format(g_num))
                     )
-                    np.savetxt(fall, grad)
+                    np.savetxt(fall, grad, delimiter=self.data_sep)
                 else:
                     fname = "{}-fid_err_gradients{}.{}".format(
                         self.fname_base, g_num, self.dump_file_ext
-- 
2.43.0


From 25e4168041fad3d877b0cc3ba7c3e0c3233cace0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:21 +0000
Subject: [PATCH 58/78] fix: dump directory that cannot be created

---
 src/qutip_qtrl/dump.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/dump.py b/src/qutip_qtrl/dump.py
index 82732d2..d13c97c 100644
--- a/src/qutip_qtrl/dump.py
+++ b/src/qutip_qtrl/dump.py
@@ -173,8 +173,7 @@ class Dump:
     @dump_dir.setter
     def dump_dir(self, value):
         self._dump_dir = value
-        if not self.create_dump_dir():
-            self._dump_dir = None
+        self.create_dump_dir()
 
     def create_dump_dir(self):
         """
-- 
2.43.0


From 0c10f0732fcdc2c7eb00904912bf61ed5f0f4480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:31 +0000
Subject: [PATCH 59/78] fix: text attributes loaded from parameter files

---
 src/qutip_qtrl/loadparams.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qutip_qtrl/loadparams.py b/src/qutip_qtrl/loadparams.py
index 988278b..811df1e 100644
--- a/src/qutip_qtrl/loadparams.py
+++ b/src/qutip_qtrl/loadparams.py
@@ -218,6 +218,8 @@ def set_param(parser, section, option, obj, attrib_name):
                 " in parameter file [{}].{}".format(val, section, option)
             )
         setattr(obj, attrib_name, b)
+    elif dtype == str:
+        setattr(obj, attrib_name, val)
     else:
         try:
             val = parser.getfloat(section, attrib_name)
-- 
2.43.0


From 5178d59c7cbc14ff304b2ecffd4ef56a83cc9ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:40 +0000
Subject: [PATCH 60/78] fix: prop_type missing from OptimConfig

---
 src/qutip_qtrl/optimconfig.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/optimconfig.py b/src/qutip_qtrl/optimconfig.py
index c5943c4..028782c 100644
--- a/src/qutip_qtrl/optimconfig.py
+++ b/src/qutip_qtrl/optimconfig.py
@@ -61,7 +61,7 @@ class OptimConfig(object):
         self.alg = "GRAPE"  # Alts: 'CRAB'
         self.optim_method = "DEF"
         self.dyn_type = "DEF"
-        self.fid_type = "DEF"
+        self.prop_type = "DEF"
         self.fid_type = "DEF"
         self.tslot_type = "DEF"
         self.init_pulse_type = "DEF"
-- 
2.43.0


From b3efdd12e4a8b1e5a38696d112599efa41b610d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:51 +0000
Subject: [PATCH 61/78] fix: attributes with numpy types in parameter files

---
 src/qutip_qtrl/loadparams.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/qutip_qtrl/loadparams.py b/src/qutip_qtrl/loadparams.py
index 811df1e..c6ea9cd 100644
--- a/src/qutip_qtrl/loadparams.py
+++ b/src/qutip_qtrl/loadparams.py
@@ -177,7 +177,7 @@ def set_param(parser, section, option, obj, attrib_name):
                 " in parameter file [{}].{}".format(val, section, option)
             )
         setattr(obj, attrib_name, l)
-    elif dtype == float:
+    elif isinstance(a, (float, np.floating)):
         try:
             f = parser.getfloat(section, attrib_name)
         except:
@@ -191,7 +191,7 @@ def set_param(parser, section, option, obj, attrib_name):
                     )
                 )
         setattr(obj, attrib_name, f)
-    elif dtype == complex:
+    elif isinstance(a, (complex, np.complexfloating)):
         try:
             c = complex(val)
         except:
@@ -200,7 +200,7 @@ def set_param(parser, section, option, obj, attrib_name):
                 " in parameter file [{}].{}".format(val, section, option)
             )
         setattr(obj, attrib_name, c)
-    elif dtype == int:
+    elif dtype == int or isinstance(a, np.integer):
         try:
             i = parser.getint(section, attrib_name)
         except:
@@ -209,7 +209,7 @@ def set_param(parser, section, option, obj, attrib_name):
                 " in parameter file [{}].{}".format(val, section, option)
             )
         setattr(obj, attrib_name, i)
-    elif dtype == bool:
+    elif isinstance(a, (bool, np.bool_)):
         try:
             b = parser.getboolean(section, attrib_name)
         except:
-- 
2.43.0


From f5c1bb30ac87148db3aeb346831d1da28f621f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:02 +0000
Subject: [PATCH 62/78] fix: limits of zero in the configuration were ignored

---
 src/qutip_qtrl/optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index 013d5f4..a1e849b 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -273,10 +273,10 @@ class Optimizer(object):
         # AJGP 2015-04-21:
         # These (copying from config) are here for backward compatibility
         if hasattr(self.config, "amp_lbound"):
-            if self.config.amp_lbound:
+            if self.config.amp_lbound is not None:
                 self.amp_lbound = self.config.amp_lbound
         if hasattr(self.config, "amp_ubound"):
-            if self.config.amp_ubound:
+            if self.config.amp_ubound is not None:
                 self.amp_ubound = self.config.amp_ubound
 
         self.apply_params()
-- 
2.43.0


From dfde82bab1d507d2c08b35a8cb7410405953f703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:11 +0000
Subject: [PATCH 63/78] fix: system log message with time dependent controls

---
 src/qutip_qtrl/pulseoptim.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index e3a312d..927ec32 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -521,8 +521,14 @@ def optimize_pulse(
             msg += "Drift {}:\n".format(dg_name)
             msg += str(dyn.drift_dyn_gen)
         for j in range(dyn.num_ctrls):
-            msg += "\nControl {} {}:\n".format(j + 1, dg_name)
-            msg += str(dyn.ctrl_dyn_gen[j])
+            if dyn.time_depend_ctrl_dyn_gen:
+                msg += "\nInitial control {} {}:\n".format(j + 1, dg_name)
+            else:
+                msg += "\nControl {} {}:\n".format(j + 1, dg_name)
+            if dyn.time_depend_ctrl_dyn_gen:
+                msg += str(dyn.ctrl_dyn_gen[0][j])
+            else:
+                msg += str(dyn.ctrl_dyn_gen[j])
         msg += "\nInitial state / operator:\n"
         msg += str(dyn.initial)
         msg += "\nTarget state / operator:\n"
-- 
2.43.0


From a7914562e844147c19afb341364dd48402d8aec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:21 +0000
Subject: [PATCH 64/78] fix: parameters given to the constructors of the
 optimisers

---
 src/qutip_qtrl/optimizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index a1e849b..0fef3c7 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -825,6 +825,7 @@ class OptimizerBFGS(Optimizer):
     def reset(self):
         Optimizer.reset(self)
         self.id_text = "BFGS"
+        self.apply_params()
 
     def run_optimization(self, term_conds=None):
         """
@@ -936,6 +937,7 @@ class OptimizerLBFGSB(Optimizer):
         Optimizer.reset(self)
         self.id_text = "LBFGSB"
         self.max_metric_corr = 10
+        self.apply_params()
 
     def init_optim(self, term_conds):
         """
@@ -1091,6 +1093,7 @@ class OptimizerCrab(Optimizer):
         Optimizer.reset(self)
         self.id_text = "CRAB"
         self.num_optim_vars = 0
+        self.apply_params()
 
     def init_optim(self, term_conds):
         """
@@ -1224,6 +1227,7 @@ class OptimizerCrabFmin(OptimizerCrab):
         self.id_text = "CRAB_FMIN"
         self.xtol = 1e-4
         self.ftol = 1e-4
+        self.apply_params()
 
     def run_optimization(self, term_conds=None):
         """
-- 
2.43.0


From 0cd60597e6bf27ee8e64bde1666b0a2a10928d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:44 +0000
Subject: [PATCH 65/78] fix: a second initialisation kept caches of the first

---
 src/qutip_qtrl/dynamics.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index d70c2f5..39f9d06 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -783,6 +783,16 @@ class Dynamics(object):
                 " numpy.ndarray.".format(self.oper_dtype)
             )
 
+        # Nothing may remain of an earlier initialisation, as the settings
+        # that decide which of these are used may have been different
+        self._phased_ctrl_dyn_gen = None
+        self._phased_dyn_gen = None
+        self._prop_grad = None
+        self._onwd_evo = None
+        self._onto_evo = None
+        self._decomp_curr = None
+        self._dyn_gen_eigenvectors_adj = None
+
         if self.cache_phased_dyn_gen:
             if self.time_depend_ctrl_dyn_gen:
                 self._phased_ctrl_dyn_gen = np.empty(
-- 
2.43.0


From 9cb3b5e69a2146598cb089948c80bb88dabd1131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:55 +0000
Subject: [PATCH 66/78] fix: phase of symplectic dynamics kept from an earlier
 initialisation

---
 src/qutip_qtrl/dynamics.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 39f9d06..4c0344a 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -1810,6 +1810,16 @@ class DynamicsSymplectic(Dynamics):
                 self._omega = omg
         return self._omega
 
+    def _init_phase(self):
+        # omega depends on the size and data type of the operators, which
+        # may have changed since an earlier initialisation
+        self._omega = None
+        self._omega_qobj = None
+        phase = self._get_dyn_gen_phase()
+        if phase is not None:
+            self._dyn_gen_phase = phase
+        Dynamics._init_phase(self)
+
     def _set_phase_application(self, value):
         Dynamics._set_phase_application(self, value)
         if self._evo_initialized:
-- 
2.43.0


From 53a7c4a350ea8be7e9da1542e4d7e4daef2af216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:06 +0000
Subject: [PATCH 67/78] fix: derived scale factor kept from an earlier
 initialisation

---
 src/qutip_qtrl/fidcomp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/fidcomp.py b/src/qutip_qtrl/fidcomp.py
index f4781b3..1956d6d 100644
--- a/src/qutip_qtrl/fidcomp.py
+++ b/src/qutip_qtrl/fidcomp.py
@@ -591,6 +591,7 @@ class FidCompTraceDiff(FidelityComputer):
     @scale_factor.setter
     def scale_factor(self, value):
         self._scale_factor = value
+        self._scale_factor_calculated = False
         # the values computed with the previous factor are not valid any more
         self.fidelity_current = False
         self.fid_err_grad_current = False
@@ -600,8 +601,9 @@ class FidCompTraceDiff(FidelityComputer):
         initialises the computer based on the configuration of the Dynamics
         Calculates the scale_factor is not already set
         """
-        if self.scale_factor is None:
+        if self.scale_factor is None or self._scale_factor_calculated:
             self.scale_factor = 1.0 / (2.0 * self.parent.get_drift_dim())
+            self._scale_factor_calculated = True
             if self.log_level <= logging.DEBUG:
                 logger.debug(
                     "Scale factor calculated as {}".format(self.scale_factor)
-- 
2.43.0


From ae3562111d814e738d7bc89f92eb3aee3cfd779e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:35 +0000
Subject: [PATCH 68/78] fix: unitarity check of general and symplectic dynamics

---
 src/qutip_qtrl/dynamics.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 4c0344a..8095751 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -1508,6 +1508,14 @@ class Dynamics(object):
 
         return err
 
+    def check_unitarity(self):
+        """
+        Checks whether all propagators are unitary
+        This is called by the timeslot computer after the evolution has been
+        recomputed, if unitarity_check_level > 0
+        """
+        self.unitarity_check()
+
     def unitarity_check(self):
         """
         Checks whether all propagators are unitary
-- 
2.43.0


From b5345d14c812fd42b37ca3e914baa240de1b70b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:50 +0000
Subject: [PATCH 69/78] fix: unitarity check without an eigen basis

---
 src/qutip_qtrl/dynamics.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 8095751..2d25c71 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -1739,8 +1739,15 @@ class DynamicsUnitary(Dynamics):
                 else:
                     diff = np.abs(H.T.conj() - H)
                     herm = np.all(diff < settings.core["atol"])
-                eigval_unit = self._is_unitary(self._prop_eigen[k])
-                eigvec_unit = self._is_unitary(self._dyn_gen_eigenvectors[k])
+                if self._decomp_curr is not None:
+                    eigval_unit = self._is_unitary(self._prop_eigen[k])
+                    eigvec_unit = self._is_unitary(
+                        self._dyn_gen_eigenvectors[k]
+                    )
+                else:
+                    # no eigen basis with this propagator computer
+                    eigval_unit = None
+                    eigvec_unit = None
                 if self._dyn_gen_eigenvectors_adj is not None:
                     eigvecadj_unit = self._is_unitary(
                         self._dyn_gen_eigenvectors_adj[k]
-- 
2.43.0


From 1cc479b5047607040b9a52dcfc55b9265619eb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:07 +0000
Subject: [PATCH 70/78] fix: debug logging lowered the requested unitarity
 check level

---
 src/qutip_qtrl/dynamics.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 2d25c71..02ee683 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -833,8 +833,10 @@ class Dynamics(object):
         if isinstance(self.prop_computer, propcomp.PropCompDiag):
             self._create_decomp_lists()
 
-        if self.log_level <= logging.DEBUG and isinstance(
-            self, DynamicsUnitary
+        if (
+            self.log_level <= logging.DEBUG
+            and isinstance(self, DynamicsUnitary)
+            and self.unitarity_check_level < 1
         ):
             self.unitarity_check_level = 1
 
-- 
2.43.0


From 923937f4cb1c2e5bf206d33d4209dacce1d8239e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:51 +0000
Subject: [PATCH 71/78] fix: operators given anew were not checked or converted
 when the controls are initialised again

---
 src/qutip_qtrl/dynamics.py   | 13 ++++---------
 src/qutip_qtrl/pulseoptim.py |  2 --
 2 files changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 02ee683..aec3131 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -424,8 +424,6 @@ class Dynamics(object):
         self._evo_initialized = False
         self._timeslots_initialized = False
         self._ctrls_initialized = False
-        self._ctrl_dyn_gen_checked = False
-        self._drift_dyn_gen_checked = False
         # Unitary checking
         self.unitarity_check_level = 0
         self.unitarity_tol = 1e-10
@@ -722,10 +720,9 @@ class Dynamics(object):
         Set the time slices and cumulative time
         """
         # check evolution operators
-        if not self._drift_dyn_gen_checked:
-            _check_drift_dyn_gen(self.drift_dyn_gen)
-        if not self._ctrl_dyn_gen_checked:
-            self.ctrl_dyn_gen = _check_ctrls_container(self.ctrl_dyn_gen)
+        # (they may have been replaced since an earlier initialisation)
+        _check_drift_dyn_gen(self.drift_dyn_gen)
+        self.ctrl_dyn_gen = _check_ctrls_container(self.ctrl_dyn_gen)
 
         if not isinstance(self.initial, Qobj):
             raise TypeError("initial must be a Qobj")
@@ -1148,9 +1145,7 @@ class Dynamics(object):
         return self.num_ctrls
 
     def _get_num_ctrls(self):
-        if not self._ctrl_dyn_gen_checked:
-            self.ctrl_dyn_gen = _check_ctrls_container(self.ctrl_dyn_gen)
-            self._ctrl_dyn_gen_checked = True
+        self.ctrl_dyn_gen = _check_ctrls_container(self.ctrl_dyn_gen)
         if isinstance(self.ctrl_dyn_gen, np.ndarray):
             self._num_ctrls = self.ctrl_dyn_gen.shape[1]
             self.time_depend_ctrl_dyn_gen = True
diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index 927ec32..6af9c96 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -1899,8 +1899,6 @@ def create_pulse_optimizer(
     else:
         raise errors.UsageError("No option for dyn_type: " + dyn_type)
     dyn.apply_params(dyn_params)
-    dyn._drift_dyn_gen_checked = True
-    dyn._ctrl_dyn_gen_checked = True
 
     # Create the PropagatorComputer instance
     # The default will be typically be the best option
-- 
2.43.0


From e201c0499f33b11ddf1dfc8f1ed76e981b52da01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:01 +0000
Subject: [PATCH 72/78] fix: combine_dyn_gen raised TypeError

---
 src/qutip_qtrl/dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index aec3131..44c1538 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -1228,7 +1228,7 @@ class Dynamics(object):
             "'combine_dyn_gen' has been replaced by " "'_combine_dyn_gen'"
         )
         self._combine_dyn_gen(k)
-        return self._dyn_gen(k)
+        return self._dyn_gen[k]
 
     def _combine_dyn_gen(self, k):
         """
-- 
2.43.0


From 0f97aa8136c7ad85cb2ea647e679f6cbc57cbcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:10 +0000
Subject: [PATCH 73/78] fix: compute_prop_grad passed itself twice

---
 src/qutip_qtrl/propcomp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/propcomp.py b/src/qutip_qtrl/propcomp.py
index 0080814..374be6e 100644
--- a/src/qutip_qtrl/propcomp.py
+++ b/src/qutip_qtrl/propcomp.py
@@ -158,7 +158,7 @@ class PropagatorComputer:
         _func_deprecation(
             "'compute_prop_grad' has been replaced " "by '_compute_prop_grad'"
         )
-        return self._compute_prop_grad(self, k, j, compute_prop=compute_prop)
+        return self._compute_prop_grad(k, j, compute_prop=compute_prop)
 
     def _compute_prop_grad(self, k, j, compute_prop=True):
         """
-- 
2.43.0


From 6853366130457d792d88c88252b117c58f7e9df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:18 +0000
Subject: [PATCH 74/78] fix: get_timeslot_for_fidelity_calc returned a method

---
 src/qutip_qtrl/tslotcomp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/tslotcomp.py b/src/qutip_qtrl/tslotcomp.py
index cdec161..d4784bd 100644
--- a/src/qutip_qtrl/tslotcomp.py
+++ b/src/qutip_qtrl/tslotcomp.py
@@ -363,7 +363,7 @@ class TSlotCompUpdateAll(TimeslotComputer):
             "'get_timeslot_for_fidelity_calc' is deprecated. "
             "Use '_get_timeslot_for_fidelity_calc'"
         )
-        return self._get_timeslot_for_fidelity_calc
+        return self._get_timeslot_for_fidelity_calc()
 
     def _get_timeslot_for_fidelity_calc(self):
         """
-- 
2.43.0


From 391c79f3a2af92dc601f4a288db5b56fb69db6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:28 +0000
Subject: [PATCH 75/78] fix: changed drift_ham and ctrl_ham were ignored after
 the first initialisation

---
 src/qutip_qtrl/dynamics.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 44c1538..0194e4a 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -1566,6 +1566,8 @@ class DynamicsUnitary(Dynamics):
         self.id_text = "UNIT"
         self.drift_ham = None
         self.ctrl_ham = None
+        self._mapped_drift_dyn_gen = None
+        self._mapped_ctrl_dyn_gen = None
         self.H = None
         self._dyn_gen_phase = -1j
         self._phase_application = "preop"
@@ -1594,14 +1596,22 @@ class DynamicsUnitary(Dynamics):
         Dynamics.initialize_controls(self, amplitudes, init_tslots=init_tslots)
 
     def _map_dyn_gen_to_ham(self):
-        if self.drift_dyn_gen is None:
+        # The _ham names are used unless the _dyn_gen names were set since
+        # the last mapping
+        if (
+            self.drift_dyn_gen is self._mapped_drift_dyn_gen
+            and self.drift_ham is not None
+        ):
             self.drift_dyn_gen = self.drift_ham
-        else:
-            self.drift_ham = self.drift_dyn_gen
-        if self.ctrl_dyn_gen is None:
+        if (
+            self.ctrl_dyn_gen is self._mapped_ctrl_dyn_gen
+            and self.ctrl_ham is not None
+        ):
             self.ctrl_dyn_gen = self.ctrl_ham
-        else:
-            self.ctrl_ham = self.ctrl_dyn_gen
+        if self.ctrl_dyn_gen is not None:
+            self.ctrl_dyn_gen = _check_ctrls_container(self.ctrl_dyn_gen)
+        self.drift_ham = self._mapped_drift_dyn_gen = self.drift_dyn_gen
+        self.ctrl_ham = self._mapped_ctrl_dyn_gen = self.ctrl_dyn_gen
         self._dyn_gen_mapped = True
 
     @property
-- 
2.43.0


From 7d67c6c55d2cfb09023566f6d34b1fb53d6a5057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:37 +0000
Subject: [PATCH 76/78] fix: H of unitary dynamics was always None

---
 src/qutip_qtrl/dynamics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 0194e4a..db1ce3f 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -1568,7 +1568,6 @@ class DynamicsUnitary(Dynamics):
         self.ctrl_ham = None
         self._mapped_drift_dyn_gen = None
         self._mapped_ctrl_dyn_gen = None
-        self.H = None
         self._dyn_gen_phase = -1j
         self._phase_application = "preop"
         self.apply_params()
@@ -1614,6 +1613,10 @@ class DynamicsUnitary(Dynamics):
         self.ctrl_ham = self._mapped_ctrl_dyn_gen = self.ctrl_dyn_gen
         self._dyn_gen_mapped = True
 
+    @property
+    def H(self):
+        return self.dyn_gen
+
     @property
     def num_ctrls(self):
         if not self._dyn_gen_mapped:
-- 
2.43.0


From 1ec266435de7ca7734e698f110ca869b75148b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:47 +0000
Subject: [PATCH 77/78] fix: interrupted reading of prop_grad, fwd_evo and
 onto_evo left the list half built

---
 src/qutip_qtrl/dynamics.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index db1ce3f..7a23a95 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -1338,14 +1338,15 @@ class Dynamics(object):
                 if self.oper_dtype == Qobj:
                     self._prop_grad_qobj = self._prop_grad
                 else:
-                    self._prop_grad_qobj = np.empty(
+                    prop_grad = np.empty(
                         [self.num_tslots, self.num_ctrls], dtype=object
                     )
                     for k in range(self.num_tslots):
                         for j in range(self.num_ctrls):
-                            self._prop_grad_qobj[k, j] = Qobj(
+                            prop_grad[k, j] = Qobj(
                                 self._prop_grad[k, j], dims=self.dyn_dims
                             )
+                    self._prop_grad_qobj = prop_grad
         return self._prop_grad_qobj
 
     def _get_prop_grad(self, k, j):
@@ -1373,11 +1374,12 @@ class Dynamics(object):
                 if self.oper_dtype == Qobj:
                     self._fwd_evo_qobj = self._fwd_evo
                 else:
-                    self._fwd_evo_qobj = [self.initial]
+                    fwd_evo = [self.initial]
                     for k in range(1, self.num_tslots + 1):
-                        self._fwd_evo_qobj.append(
+                        fwd_evo.append(
                             Qobj(self._fwd_evo[k], dims=self.sys_dims)
                         )
+                    self._fwd_evo_qobj = fwd_evo
         return self._fwd_evo_qobj
 
     def _get_full_evo(self):
@@ -1426,12 +1428,13 @@ class Dynamics(object):
                     self._onto_evo_qobj = self._onto_evo
                 else:
                     rev_dims = [self.sys_dims[1], self.sys_dims[0]]
-                    self._onto_evo_qobj = []
+                    onto_evo = []
                     for k in range(0, self.num_tslots):
-                        self._onto_evo_qobj.append(
+                        onto_evo.append(
                             Qobj(self._onto_evo[k], dims=rev_dims)
                         )
-                    self._onto_evo_qobj.append(self.onto_evo_target)
+                    onto_evo.append(self.onto_evo_target)
+                    self._onto_evo_qobj = onto_evo
 
         return self._onto_evo_qobj
 
-- 
2.43.0


From 900b61cc19b5164699f257de103882390794fbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:58 +0000
Subject: [PATCH 78/78] fix: refused phase option was stored nevertheless

---
 src/qutip_qtrl/fidcomp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/fidcomp.py b/src/qutip_qtrl/fidcomp.py
index 1956d6d..c765eea 100644
--- a/src/qutip_qtrl/fidcomp.py
+++ b/src/qutip_qtrl/fidcomp.py
@@ -321,7 +321,6 @@ class FidCompUnitary(FidelityComputer):
         self._init_phase_option(value)
 
     def _init_phase_option(self, value):
-        self._phase_option = value
         # the values computed with the previous option are not valid any more
         self.fidelity_current = False
         self.fid_err_grad_current = False
@@ -340,6 +339,7 @@ class FidCompUnitary(FidelityComputer):
             raise errors.UsageError(
                 "No option for phase_option '{}'".format(value)
             )
+        self._phase_option = value
 
     def init_comp(self):
         """
-- 
2.43.0

