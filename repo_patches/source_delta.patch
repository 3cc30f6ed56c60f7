From cbe6dc59ee487d9fbe494bd9f1ac05adab9c2109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:56 +0000
Subject: [PATCH 01/37] fix: use the builtin int and float where removed NumPy
 aliases were used

numpy.int and numpy.float no longer exist, so resampling, the conditional
filters, backward simulation and MHIPS raised AttributeError.
---
 pyparticleest/filter.py            | 16 ++++++++--------
 pyparticleest/paramest/paramest.py |  2 +-
 pyparticleest/smoother.py          |  4 ++--
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index 9fdfae7..6a9fad4 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -355,8 +355,8 @@ class CSIRAS(SIR):
         ancestors[:-1] = sample(tmp, N - 1)
 
         #select ancestor for conditional trajectory
-        pind = numpy.asarray(range(N), dtype=numpy.int)
-        find = numpy.zeros((N,), dtype=numpy.int)
+        pind = numpy.asarray(range(N), dtype=int)
+        find = numpy.zeros((N,), dtype=int)
 
         wtrans = self.model.logp_xnext(particles=traj[cur_ind].pa.part,
                                        next_part=self.ctraj[cur_ind + 1].pa.part[find],
@@ -613,8 +613,8 @@ class CPFAS(CPF):
         ancestors[:-1] = sample(tmp, N - 1)
 
         #select ancestor for conditional trajectory
-        pind = numpy.asarray(range(N), dtype=numpy.int)
-        find = numpy.zeros((N,), dtype=numpy.int)
+        pind = numpy.asarray(range(N), dtype=int)
+        find = numpy.zeros((N,), dtype=int)
 
         wtrans = self.model.logp_xnext_singlestep(part=traj[cur_ind].pa.part[pind],
                                                   past_trajs=traj[:cur_ind],
@@ -738,8 +738,8 @@ class CPFYAS(CPFAS):
         ancestors[:-1] = sample(tmp, self.N - 1)
 
         #select ancestor for conditional trajectory
-        pind = numpy.arange(self.N, dtype=numpy.int)
-        find = numpy.zeros((self.N,), dtype=numpy.int)
+        pind = numpy.arange(self.N, dtype=int)
+        find = numpy.zeros((self.N,), dtype=int)
 
         wtrans = self.model.logp_xnext_singlestep(part=traj[cur_ind].pa.part[pind],
                                                   past_trajs=traj[:cur_ind],
@@ -857,7 +857,7 @@ class ParticleTrajectory(object):
         else:
             self.uvec = numpy.empty(1, dtype=utype)
             self.yvec = numpy.empty(1, dtype=ytype)
-            self.tvec = numpy.empty(1, dtype=numpy.float)
+            self.tvec = numpy.empty(1, dtype=float)
             self.T = 0
         #TODO, this isn't correctly used in the code, assumed = 0
         assert(t0 == 0)
@@ -1116,7 +1116,7 @@ class ParticleApproximation(object):
         new_ind = sample(numpy.exp(tmp), N)
         new_part = model.copy_ind(self.part, new_ind)
 
-        self.w = numpy.log(numpy.ones(N, dtype=numpy.float) / N)
+        self.w = numpy.log(numpy.ones(N, dtype=float) / N)
         self.part = new_part
         self.num = N
         self.w_offset = 0.0
diff --git a/pyparticleest/paramest/paramest.py b/pyparticleest/paramest/paramest.py
index 1e8f917..d4490ef 100644
--- a/pyparticleest/paramest/paramest.py
+++ b/pyparticleest/paramest/paramest.py
@@ -228,7 +228,7 @@ class ParamEstimationPSAEM(Simulator):
         if (callback is None):
             callback = default_callback
 
-        ind = numpy.asarray(range(num_part), dtype=numpy.int)
+        ind = numpy.asarray(range(num_part), dtype=int)
         i = 0;
         while (True):
             i += 1
diff --git a/pyparticleest/smoother.py b/pyparticleest/smoother.py
index 01cebda..45983ce 100644
--- a/pyparticleest/smoother.py
+++ b/pyparticleest/smoother.py
@@ -360,7 +360,7 @@ class SmoothTrajectory(object):
         else:
             raise ValueError('Unknown sampler: %s' % method)
 
-        find = numpy.arange(M, dtype=numpy.int)
+        find = numpy.arange(M, dtype=int)
 
         for cur_ind in reversed(range(len(pt) - 1)):
 
@@ -523,7 +523,7 @@ class SmoothTrajectory(object):
         ut = self.u
         yt = self.y
         tt = self.t
-        pind = numpy.arange(self.M, dtype=numpy.int)
+        pind = numpy.arange(self.M, dtype=int)
 
         straj = numpy.empty((T,), dtype=object)
         pt = self.traj[:T - 1]
-- 
2.43.0


From 12a4f27a7b889fdb550637515f9c5b01fa6a804b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:56 +0000
Subject: [PATCH 02/37] fix: xrange does not exist in Python 3

Parameter estimation raised NameError before the first iteration.
---
 pyparticleest/paramest/interfaces.py | 8 ++++----
 pyparticleest/paramest/paramest.py   | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyparticleest/paramest/interfaces.py b/pyparticleest/paramest/interfaces.py
index 3430427..0a26a18 100644
--- a/pyparticleest/paramest/interfaces.py
+++ b/pyparticleest/paramest/interfaces.py
@@ -61,7 +61,7 @@ class ParamEstInterface(ParamEstIntFullTraj):
         sest = straj.get_smoothed_estimates()
         M = sest.shape[1]
         T = straj.traj.shape[0]
-        for i in xrange(T - 1):
+        for i in range(T - 1):
             val = self.eval_logp_xnext(sest[i],
                                        sest[i + 1],
                                        ut[i], tt[i])
@@ -73,7 +73,7 @@ class ParamEstInterface(ParamEstIntFullTraj):
         sest = straj.get_smoothed_estimates()
         M = sest.shape[1]
         T = straj.traj.shape[0]
-        for i in xrange(T):
+        for i in range(T):
             if (yt[i] is not None):
                 val = self.eval_logp_y(sest[i], yt[i], tt[i])
                 logp_y += numpy.sum(val)
@@ -142,7 +142,7 @@ class ParamEstInterface_GradientSearch(ParamEstInterface_GradientSearchFullTraj)
         sest = straj.get_smoothed_estimates()
         M = sest.shape[1]
         T = len(straj)
-        for t in xrange(T):
+        for t in range(T):
             if (straj.y[t] is not None):
                 (val, grad) = self.eval_logp_y_val_grad(sest[t],
                                                         straj.y[t],
@@ -157,7 +157,7 @@ class ParamEstInterface_GradientSearch(ParamEstInterface_GradientSearchFullTraj)
         sest = straj.get_smoothed_estimates()
         M = sest.shape[1]
         T = len(straj)
-        for t in xrange(T - 1):
+        for t in range(T - 1):
             (val, grad) = self.eval_logp_xnext_val_grad(sest[t],
                                                         sest[t + 1],
                                                         straj.u[t],
diff --git a/pyparticleest/paramest/paramest.py b/pyparticleest/paramest/paramest.py
index d4490ef..64bcae7 100644
--- a/pyparticleest/paramest/paramest.py
+++ b/pyparticleest/paramest/paramest.py
@@ -44,7 +44,7 @@ class ParamEstimation(Simulator):
 
         params_local = numpy.copy(param0)
         Q = -numpy.Inf
-        for i in xrange(max_iter):
+        for i in range(max_iter):
             Q_old = Q
             self.set_params(params_local)
             if (numpy.isscalar(num_part)):
@@ -132,7 +132,7 @@ class ParamEstimationSAEM(Simulator):
         alltrajs = None
         weights = None
 
-        for i in xrange(max_iter):
+        for i in range(max_iter):
             self.set_params(params_local)
 
             if (numpy.isscalar(num_part)):
@@ -331,7 +331,7 @@ class ParamEstimationPSAEM2(Simulator):
         weights = numpy.empty((max_iter * num_part,))
 
         datalen = 0
-        for i in xrange(max_iter):
+        for i in range(max_iter):
             self.set_params(params_local)
 
             self.simulate(num_part, 1, filter=filter, filter_options=filter_options,
@@ -345,7 +345,7 @@ class ParamEstimationPSAEM2(Simulator):
 
             newtrajs = numpy.empty((T, N, D))
 
-            for t in xrange(T):
+            for t in range(T):
                 newtrajs[t] = tmp[t].pa.part
 
             w = 1.0
-- 
2.43.0


From e93c603920f1171ebbf1924dedf4ff76603413cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:14 +0000
Subject: [PATCH 03/37] fix: auxiliary particle filter with a missing
 measurement

The first stage weights were only defined when the next measurement was
present, a missing one raised UnboundLocalError.
---
 pyparticleest/filter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index 6a9fad4..5b45414 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -676,6 +676,7 @@ class AuxiliaryParticleFilter(ParticleFilter):
         pa = ParticleApproximation(traj[-1].pa.part, traj[-1].pa.w)
 
         resampled = False
+        l1w = numpy.zeros(pa.num)
 
         if (yvec is not None and yvec[cur_ind + 1] is not None):
             # TODO Generalize to non-Markovian
-- 
2.43.0


From 9ac26f4755d57ee4a23921ad8b42bc9ef5e6505e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:14 +0000
Subject: [PATCH 04/37] fix: FFPropY proposes from the measurement of the step
 being taken

With preallocated signal storage yvec[-1] is the last (not yet set) entry,
not the measurement for cur_ind + 1.
---
 pyparticleest/filter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index 5b45414..5260568 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -455,7 +455,8 @@ class FFPropY(object):
         else:
             ancestors = numpy.arange(pa.num, dtype=int)
 
-        partn = self.model.propose_from_y(len(pa.part), y=yvec[-1], t=tvec[-1])
+        partn = self.model.propose_from_y(len(pa.part), y=yvec[cur_ind + 1],
+                                          t=tvec[cur_ind + 1])
         find = numpy.arange(self.N, dtype=int)
 
         wn = self.model.logp_xnext_singlestep(part=traj[cur_ind].pa.part[ancestors],
-- 
2.43.0


From 811ab8c6007d09c337faa46a05a49e1576b227d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:14 +0000
Subject: [PATCH 05/37] fix: find_best_particles returned the smallest weights

---
 pyparticleest/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index 5260568..ec8480d 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -1141,5 +1141,5 @@ class ParticleApproximation(object):
 
         Returns:
          - (array-like) with len=n, representing the n most likely estimates """
-        indices = numpy.argsort(self.w)
+        indices = numpy.argsort(self.w)[::-1]
         return indices[range(n)]
-- 
2.43.0


From 3c9647f83ff40b160d874c6d934e60530353f894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:14 +0000
Subject: [PATCH 06/37] fix: CSIRAS did not keep the reference state at the
 initial time

---
 pyparticleest/filter.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index ec8480d..c3debcc 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -331,6 +331,22 @@ class CSIRAS(SIR):
         self.ctraj = cond_traj
         self.model = model
 
+    def create_initial_estimate(self, N):
+        """
+        Create initial particle estimate, the last particle is the initial
+        state of the conditional trajectory
+
+        Args:
+         - N (int): Number of particles
+
+        Returns:
+        (array-like): Sampled particles
+
+        """
+        part = self.model.create_initial_estimate(N)
+        part[-1] = self.ctraj[0].pa.part[0]
+        return part
+
     def forward(self, traj, yvec, uvec, tvec, cur_ind):
         """
         Forward the estimate stored in pa from t to t+1 using the motion model
-- 
2.43.0


From 67e83f9cd76fc6b3a6bed2377cd9ee0387b0f01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:14 +0000
Subject: [PATCH 07/37] fix: rejection samplers test against the trajectories
 given by find

---
 pyparticleest/smoother.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyparticleest/smoother.py b/pyparticleest/smoother.py
index 45983ce..98f13bf 100644
--- a/pyparticleest/smoother.py
+++ b/pyparticleest/smoother.py
@@ -69,7 +69,7 @@ def bsi_rs(model, pa, ptraj, pind, future_trajs, find, ut, yt, tt, cur_ind, maxp
 
         ind = numpy.random.permutation(pf.sample(weights, len(todo)))
         pn = model.logp_xnext_full(pa.part[ind], ptraj, pind[ind],
-                                   future_trajs, todo,
+                                   future_trajs, find[todo],
                                    ut=ut, yt=yt, tt=tt, cur_ind=cur_ind)
         test = numpy.log(numpy.random.uniform(size=len(todo)))
         accept = test < pn - maxpdf
@@ -81,7 +81,7 @@ def bsi_rs(model, pa, ptraj, pind, future_trajs, find, ut, yt, tt, cur_ind, maxp
     # TODO, is there an efficient way to store those weights
     # already calculated to avoid double work, or will that
     # take more time than simply evaulating them all again?
-    res[todo] = bsi_full(model, pa, ptraj, pind, future_trajs, todo, ut=ut, yt=yt, tt=tt, cur_ind=cur_ind)
+    res[todo] = bsi_full(model, pa, ptraj, pind, future_trajs, find[todo], ut=ut, yt=yt, tt=tt, cur_ind=cur_ind)
     return res
 
 def bsi_rsas(model, pa, ptraj, pind, future_trajs, find, ut, yt, tt, cur_ind, maxpdf, x1, P1, sv, sw, ratio):
@@ -126,7 +126,7 @@ def bsi_rsas(model, pa, ptraj, pind, future_trajs, find, ut, yt, tt, cur_ind, ma
 
         ind = numpy.random.permutation(pf.sample(weights, len(todo)))
         pn = model.logp_xnext_full(pa.part[ind], ptraj, pind[ind],
-                                   future_trajs, todo,
+                                   future_trajs, find[todo],
                                    ut=ut, yt=yt, tt=tt, cur_ind=cur_ind)
         test = numpy.log(numpy.random.uniform(size=len(todo)))
         accept = test < pn - maxpdf
@@ -147,7 +147,7 @@ def bsi_rsas(model, pa, ptraj, pind, future_trajs, find, ut, yt, tt, cur_ind, ma
         if (pk < stop_criteria):
             break
 
-    res[todo] = bsi_full(model, pa, ptraj, pind, future_trajs, todo, ut=ut, yt=yt, tt=tt, cur_ind=cur_ind)
+    res[todo] = bsi_full(model, pa, ptraj, pind, future_trajs, find[todo], ut=ut, yt=yt, tt=tt, cur_ind=cur_ind)
     return res
 
 def bsi_mcmc(model, pa, ptraj, pind, future_trajs, find, ut, yt, tt, cur_ind, R, ancestors):
-- 
2.43.0


From b73d5c57d71f371e160017524baf6f451a7debea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:14 +0000
Subject: [PATCH 08/37] fix: mc_step when every term of the acceptance ratio is
 absent

The ratio is then a plain float and len(ratio) raised TypeError.
---
 pyparticleest/smoother.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/smoother.py b/pyparticleest/smoother.py
index 98f13bf..2bc6bac 100644
--- a/pyparticleest/smoother.py
+++ b/pyparticleest/smoother.py
@@ -773,7 +773,7 @@ def mc_step(model, part, ptraj, pind_prop, pind_curr, future_trajs, find,
              (logp_next_prop - logp_next_curr) +
              (logp_q_curr - logp_q_prop))
 
-    test = numpy.log(numpy.random.uniform(size=len(ratio)))
+    test = numpy.log(numpy.random.uniform(size=len(curparty)))
     acc = test < ratio
     curparty[acc] = xpropy[acc]
     return (curparty, acc)
-- 
2.43.0


From 8c1422f70662e8b6008e11678c50895ba318c1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:38 +0000
Subject: [PATCH 09/37] fix: Metropolis-Hastings backward proposer at the
 initial time step

panc was undefined for a trajectory of length one and stale otherwise, and
the returned steps carried no ancestor indices.
---
 pyparticleest/smoother.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/smoother.py b/pyparticleest/smoother.py
index 2bc6bac..7bb52ba 100644
--- a/pyparticleest/smoother.py
+++ b/pyparticleest/smoother.py
@@ -468,6 +468,8 @@ class SmoothTrajectory(object):
                 ptraj = pt[:t]
             else:
                 ptraj = None
+                panc = None
+                anc = pt[t].ancestors[cind]
 
             for _ in range(R):
 
@@ -489,7 +491,8 @@ class SmoothTrajectory(object):
                                       cur_ind=t,
                                       reduced=reduced)
 
-                anc[acc] = panc[acc]
+                if (t > 0):
+                    anc[acc] = panc[acc]
 
             fpart = self.model.sample_smooth(part=pnew,
                                              ptraj=ptraj,
@@ -498,7 +501,7 @@ class SmoothTrajectory(object):
                                              find=find,
                                              ut=ut, yt=yt, tt=tt,
                                              cur_ind=t)
-            straj[t] = TrajectoryStep(ParticleApproximation(fpart))
+            straj[t] = TrajectoryStep(ParticleApproximation(fpart), find)
             cind = anc
 
         self.traj = straj
-- 
2.43.0


From 1b24281ebbae55fac57d7773feecddc732dbb244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:38 +0000
Subject: [PATCH 10/37] fix: scalar nonlinear Gaussian models used the standard
 deviation as variance

---
 pyparticleest/models/nlg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/models/nlg.py b/pyparticleest/models/nlg.py
index 407a0aa..9efb939 100644
--- a/pyparticleest/models/nlg.py
+++ b/pyparticleest/models/nlg.py
@@ -200,7 +200,7 @@ class NonlinearGaussian(interfaces.ParticleFiltering, interfaces.FFBSiRS):
         diff = yrep - g
         if (R is None):
             if (self.Rcholtri.shape[0] == 1):
-                lpy = kalman.lognormpdf_scalar(diff, self.Rcholtri)
+                lpy = kalman.lognormpdf_scalar(diff, self.Rcholtri ** 2)
             else:
                 lpy = kalman.lognormpdf_cho_vec(diff, self.Rchol)
         else:
@@ -287,7 +287,7 @@ class NonlinearGaussian(interfaces.ParticleFiltering, interfaces.FFBSiRS):
         Q = self.calc_Q(particles, u, t)
         if (Q is None):
             if (self.Qcholtri.shape[0] == 1):
-                lpx = kalman.lognormpdf_scalar(diff, self.Qcholtri)
+                lpx = kalman.lognormpdf_scalar(diff, self.Qcholtri ** 2)
             else:
                 lpx = kalman.lognormpdf_cho_vec(diff, self.Qchol)
         else:
-- 
2.43.0


From 8d586e43bafad631060d74a5fbb6a40e3843f027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:38 +0000
Subject: [PATCH 11/37] fix: initial particles of nonlinear Gaussian models had
 the wrong covariance

The factor U of Px0 = U^T U was applied untransposed, together with the
undefined lower triangle cho_factor leaves in its result.
---
 pyparticleest/models/nlg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/models/nlg.py b/pyparticleest/models/nlg.py
index 9efb939..d93ad97 100644
--- a/pyparticleest/models/nlg.py
+++ b/pyparticleest/models/nlg.py
@@ -412,9 +412,9 @@ class NonlinearGaussianInitialGaussian(NonlinearGaussian):
          of all particles """
         particles = numpy.repeat(self.x0, N, 1).T
         if (numpy.any(self.Px0)):
-            Pchol = scipy.linalg.cho_factor(self.Px0)[0]
+            Pchol = numpy.triu(scipy.linalg.cho_factor(self.Px0)[0])
             noise = numpy.random.normal(size=(self.lxi, N))
-            particles += (Pchol.dot(noise)).T
+            particles += (Pchol.T.dot(noise)).T
         return particles
 
     def eval_logp_x0(self, particles, t):
-- 
2.43.0


From e19977a21c78cadad47a5268517457ee29007193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:37 +0000
Subject: [PATCH 12/37] fix: LTV smoothing used the first time step and the
 first particle

The dynamics of time 0 and the moments of particle 0 were used for every
time step and every trajectory, and find was ignored.
---
 pyparticleest/models/ltv.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyparticleest/models/ltv.py b/pyparticleest/models/ltv.py
index 402b133..b1baae2 100644
--- a/pyparticleest/models/ltv.py
+++ b/pyparticleest/models/ltv.py
@@ -277,11 +277,11 @@ class LTV(FFBSi, ParticleFiltering):
         res = numpy.empty((M, lz + 2 * lz ** 2))
         for j in range(M):
             if (future_trajs is not None):
-                zn = future_trajs[0].pa.part[j, :lz].reshape((lz, 1))
-                Pn = future_trajs[0].pa.part[j, lz:lzP].reshape((lz, lz))
-                (A, f, Q) = self.get_pred_dynamics(u=ut[0], t=tt[0])
+                zn = future_trajs[0].pa.part[find[j], :lz].reshape((lz, 1))
+                Pn = future_trajs[0].pa.part[find[j], lz:lzP].reshape((lz, lz))
+                (A, f, Q) = self.get_pred_dynamics(u=ut[cur_ind], t=tt[cur_ind])
                 self.kf.set_dynamics(A=A, Q=Q, f_k=f)
-                (zs, Ps, Ms) = self.kf.smooth(zl[0], Pl[0], zn, Pn, self.kf.A,
+                (zs, Ps, Ms) = self.kf.smooth(zl[j], Pl[j], zn, Pn, self.kf.A,
                                               self.kf.f_k, self.kf.Q)
             else:
                 zs = zl[j]
-- 
2.43.0


From fcd291a2242a4f99a97fcd99e2ef6855bff89e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:37 +0000
Subject: [PATCH 13/37] fix: LTV gradient of the measurement log-likelihood

calc_l3_grad was called without the gradients and missed transposes.
---
 pyparticleest/models/ltv.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyparticleest/models/ltv.py b/pyparticleest/models/ltv.py
index b1baae2..665c586 100644
--- a/pyparticleest/models/ltv.py
+++ b/pyparticleest/models/ltv.py
@@ -494,7 +494,7 @@ class LTV(FFBSi, ParticleFiltering):
             for i in range(N):
             # Calculate l3 according to (19b)
                 # Calculate l3 according to (19b)
-                (l3, l3_grad) = self.calc_l3_grad(y, zl[i], Pl[i])
+                (l3, l3_grad) = self.calc_l3_grad(y, zl[i], Pl[i], C_grad, h_grad)
                 tmp = scipy.linalg.cho_solve(Rcho, l3)
                 logpy += -0.5 * (ld + numpy.trace(tmp))
 
@@ -623,12 +623,12 @@ class LTV(FFBSi, ParticleFiltering):
         l3_grad = numpy.zeros((lparam, len(y), len(y)))
         if (h_grad is not None):
             for j in range(lparam):
-                tmp = -h_grad[j].dot(meas_diff)
+                tmp = -h_grad[j].dot(meas_diff.T)
                 l3_grad[j] += tmp + tmp.T
         if (C_grad is not None):
             for j in range(lparam):
-                tmp = -C_grad[j].dot(z).dot(meas_diff)
+                tmp = -C_grad[j].dot(z).dot(meas_diff.T)
                 l3_grad[j] += tmp + tmp.T
-                tmp = C_grad[j].dot(P).dot(self.kf.C)
+                tmp = C_grad[j].dot(P).dot(self.kf.C.T)
                 l3_grad[j] += tmp + tmp.T
         return (l3, l3_grad)
-- 
2.43.0


From 1e9fe4f364482b2110e7c1806de47e4604dcadf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:37 +0000
Subject: [PATCH 14/37] fix: LTV initial gradient when only the mean depends on
 the parameters

---
 pyparticleest/models/ltv.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyparticleest/models/ltv.py b/pyparticleest/models/ltv.py
index 665c586..922a320 100644
--- a/pyparticleest/models/ltv.py
+++ b/pyparticleest/models/ltv.py
@@ -345,6 +345,8 @@ class LTV(FFBSi, ParticleFiltering):
             lpz0 = self.eval_logp_x0(particles, t)
         else:
             lpz0 = 0.0
+            if (P0_grad is None):
+                P0_grad = numpy.zeros((lparam, self.kf.lz, self.kf.lz))
             P0cho = scipy.linalg.cho_factor(self.P0)
             ld = numpy.sum(numpy.log(numpy.diagonal(P0cho[0]))) * 2
             for i in range(N):
-- 
2.43.0


From a433c334eb34050fbe199bdf8f0135956522172a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:37 +0000
Subject: [PATCH 15/37] fix: conditional dynamics of mixed models with
 correlated noise

The covariance of the linear noise given the nonlinear one is
Qz - Qxiz^T Qxi^-1 Qxiz, and a flat xi_next was broadcast to a matrix.
---
 pyparticleest/models/mlnlg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 8138cb7..e88b06d 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -264,8 +264,8 @@ class MixedNLGaussianSampled(RBPSBase):
             # TODO linalg.solve instead?
             tmp = Qxiz[i].T.dot(scipy.linalg.inv(Qxi[i]))
             Acond.append(Az[i] - tmp.dot(Axi[i]))
-            fcond.append(fz[i] + tmp.dot(xi_next[i] - fxi[i]))
-            Qcond.append(Qz[i])
+            fcond.append(fz[i] + tmp.dot(xi_next[i].reshape((-1, 1)) - fxi[i]))
+            Qcond.append(Qz[i] - tmp.dot(Qxiz[i]))
 
         return (Acond, fcond, Qcond)
 
-- 
2.43.0


From a6887c750511a7badb1012f8318ecd4a52f6bb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:37 +0000
Subject: [PATCH 16/37] fix: mixed models with more than one nonlinear state
 could not be propagated

---
 pyparticleest/models/mlnlg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index e88b06d..763244a 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -180,7 +180,7 @@ class MixedNLGaussianSampled(RBPSBase):
         # This is probably not so nice performance-wise, but will
         # work initially to profile where the bottlenecks are.
         for i in range(N):
-            xi_next[i] = Axi[i].dot(zl[i]) + fxi[i]
+            xi_next[i] = (Axi[i].dot(zl[i]) + fxi[i]).ravel()
         return xi_next
 
     def meas_xi_next(self, particles, xi_next, u, t):
-- 
2.43.0


From 8080addc908f62e276fca022cdb469260d500f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:37 +0000
Subject: [PATCH 17/37] fix: mixed models without initial linear covariance
 raised AttributeError

---
 pyparticleest/models/mlnlg.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 763244a..79cbe02 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -1044,12 +1044,11 @@ class MixedNLGaussianSampledInitialGaussian(MixedNLGaussianSampled):
             self.Pxi0 = numpy.zeros((len(self.xi0), len(self.xi0)))
         else:
             self.Pxi0 = numpy.copy((Pxi0))
+        self.z0 = numpy.copy(z0).reshape((-1, 1))
         if (Pz0 is None):
             self.Pz0 = numpy.zeros((len(self.z0), len(self.z0)))
         else:
             self.Pz0 = numpy.copy((Pz0))
-        self.z0 = numpy.copy(z0).reshape((-1, 1))
-        self.Pz0 = numpy.copy(Pz0)
         super(MixedNLGaussianSampledInitialGaussian, self).__init__(lxi=len(self.xi0),
                                                              lz=len(self.z0),
                                                              **kwargs)
-- 
2.43.0


From a7d19867bda2713456393de626e19fc7308a9722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:37 +0000
Subject: [PATCH 18/37] fix: marginalized backward recursion, sign of the
 completed square

Integrating out the linear noise adds the completed square to the exponent,
so it is subtracted from Tau. xidiff was also broadcast to a matrix.
---
 pyparticleest/models/mlnlg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 79cbe02..5608b33 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -1210,12 +1210,12 @@ class MixedNLGaussianMarginalized(MixedNLGaussianSampled):
             m = LHnl[j] - OHnl[j].dot(fz[j])
             Mt = F.T.dot(OHnl[j]).dot(F) + numpy.eye(lz)
             Tau_t = 0.0
-            xidiff = xinl[j] - fxi[j]
+            xidiff = xinl[j].reshape((-1, 1)) - fxi[j]
             Tau_t += xidiff.T.dot(numpy.linalg.solve(Qxi[j], xidiff))
             Tau_t += fz[j].T.dot(OHnl[j]).dot(fz[j])
             Tau_t += -2.0 * LHnl[j].T.dot(fz[j])
             tmp = F.T.dot(m)
-            Tau_t += tmp.T.dot(numpy.linalg.solve(Mt, tmp))
+            Tau_t -= tmp.T.dot(numpy.linalg.solve(Mt, tmp))
 
             tmp = F.dot(numpy.linalg.solve(Mt, F.T))
 
-- 
2.43.0


From e00efbc07118d0b5cd7258391fe295a0f846dada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:37 +0000
Subject: [PATCH 19/37] fix: marginalized backward recursion ignored the noise
 cross-covariance

---
 pyparticleest/models/mlnlg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 5608b33..6e590c8 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -1200,8 +1200,8 @@ class MixedNLGaussianMarginalized(MixedNLGaussianSampled):
         Omega = numpy.zeros_like(OHnl)
         Lambda = numpy.zeros_like(LHnl)
 
-        (Az, fz, Qz, _, _, _) = self.get_lin_pred_dynamics_int(particles=particles,
-                                                               u=u, t=t)
+        (Az, fz, Qz) = self.calc_cond_dynamics(particles=particles,
+                                               xi_next=xinl, u=u, t=t)
         (Axi, fxi, Qxi, _, _, _) = self.get_nonlin_pred_dynamics_int(particles=particles,
                                                                      u=u, t=t)
 
-- 
2.43.0


From a246dd8e7984087a69de14bd4deadf7b255179f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:37 +0000
Subject: [PATCH 20/37] fix: marginalized smoothing with missing measurements

A missing measurement still added its information matrix, and a measurement
that does not depend on the linear states raised UnboundLocalError or reused
another particle's gain.
---
 pyparticleest/models/mlnlg.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 6e590c8..0d75805 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -1329,8 +1329,6 @@ class MixedNLGaussianMarginalized(MixedNLGaussianSampled):
         LHind = lxi + OHlen
         res = numpy.zeros((M, lxi + OHlen + LHlen))
 
-        (_, Cz, hz, Rz, _, _, _) = self.get_meas_dynamics_int(particles=part, y=yt[cur_ind], t=tt[cur_ind])
-
         res[:, :lxi] = part[:, :lxi]
 
         if (future_trajs is not None):
@@ -1338,13 +1336,14 @@ class MixedNLGaussianMarginalized(MixedNLGaussianSampled):
                 res[j, OHind:OHind + OHlen] = Omega[j].ravel()
                 res[j, LHind:] = Lambda[j].ravel()
 
-        for j in range(M):
-            if (Cz is not None and Cz[j] is not None):
-                tmp = numpy.linalg.solve(Rz[j], Cz[j])
-                res[j, OHind:OHind + OHlen] += (Cz[j].T.dot(tmp)).ravel()
-            if (yt is not None and yt[cur_ind] is not None):
-                res[j, LHind:] += (tmp.T.dot(numpy.asarray(yt[cur_ind]).reshape((-1, 1)) -
-                                             hz[j])).ravel()
+        if (yt is not None and yt[cur_ind] is not None):
+            (y, Cz, hz, Rz, _, _, _) = self.get_meas_dynamics_int(particles=part, y=yt[cur_ind], t=tt[cur_ind])
+            for j in range(M):
+                if (Cz[j] is not None):
+                    tmp = numpy.linalg.solve(Rz[j], Cz[j])
+                    res[j, OHind:OHind + OHlen] += (Cz[j].T.dot(tmp)).ravel()
+                    res[j, LHind:] += (tmp.T.dot(numpy.asarray(y).reshape((-1, 1)) -
+                                                 hz[j])).ravel()
 
         return res
 
-- 
2.43.0


From bc821806e292d8e8b189d0f93259cf4f63a841d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:37 +0000
Subject: [PATCH 21/37] fix: mixed model measurement gradient discarded the
 gradient of C

---
 pyparticleest/models/mlnlg.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 0d75805..f94a635 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -936,7 +936,6 @@ class MixedNLGaussianSampled(RBPSBase):
             l3[i] = meas_diff.dot(meas_diff.T) + Cl[i].dot(Pl[i]).dot(Cl[i].T)
 
             if (C_grad is not None):
-                C_grad = N * (numpy.zeros((len(self.params), len(y), self.kf.lz)),)
                 for j in range(len(self.params)):
                     tmp2 = C_grad[i][j].dot(Pl[i]).dot(Cl[i].T)
                     tmp = C_grad[i][j].dot(zl[i]).dot(meas_diff.T)
-- 
2.43.0


From 9c7f0466ccf239033a9d388dbdde4714c3d388d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:37 +0000
Subject: [PATCH 22/37] fix: mixed model measurement gradient with per-particle
 covariances

---
 pyparticleest/models/mlnlg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index f94a635..35833db 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -1022,7 +1022,7 @@ class MixedNLGaussianSampled(RBPSBase):
                                                                       l3[i], l3_grad[i][j])
             else:
                 for i in range(N):
-                    Rzcho = scipy.linalg.cho_factor(Rzcho, check_finite=False)
+                    Rzcho = scipy.linalg.cho_factor(Rz[i], check_finite=False)
                     # (_tmp, ld) = numpy.linalg.slogdet(Rz[i])
                     ld = numpy.sum(numpy.log(numpy.diagonal(Rzcho[0]))) * 2
                     tmp = scipy.linalg.cho_solve(Rzcho, l3[i])
-- 
2.43.0


From 5f8f08e0e6911867aae8e8dc3ca995e5bb11679b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:37 +0000
Subject: [PATCH 23/37] fix: shape of the default initial gradient of mixed
 models

---
 pyparticleest/models/mlnlg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 35833db..a642bce 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -1112,8 +1112,8 @@ class MixedNLGaussianSampledInitialGaussian(MixedNLGaussianSampled):
          P is a list of element-wise gradients for the covariance matrices
         """
         N = len(xi0)
-        return (N * (numpy.zeros((N, len(self.params), self.kf.lz, 1)),),
-                N * (numpy.zeros((N, len(self.params), self.kf.lz, self.kf.lz)),))
+        return (N * (numpy.zeros((len(self.params), self.kf.lz, 1)),),
+                N * (numpy.zeros((len(self.params), self.kf.lz, self.kf.lz)),))
 
     def eval_logp_xi0(self, xil):
         """
-- 
2.43.0


From 01828389557fa29cb24724202bccb88c133ebdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:07 +0000
Subject: [PATCH 24/37] fix: mixed model initial value and gradient are sums
 over the particles

The value mixed a per-particle array with a sum, and both were divided by
the number of particles unlike in the other terms and models.
---
 pyparticleest/models/mlnlg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index a642bce..f63919f 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -779,8 +779,8 @@ class MixedNLGaussianSampled(RBPSBase):
                 dl1 = -tmp - tmp.T
                 lpz0_grad[j] -= 0.5 * mlnlg_compute.compute_logprod_derivative(P0cho, P0_grad[i][j], l1, dl1)
 
-        return ((lpxi0 + lpz0) / N,
-                (lpxi0_grad + lpz0_grad) / N)
+        return (numpy.sum(lpxi0) + lpz0,
+                lpxi0_grad + lpz0_grad)
 
 
     def calc_l2(self, xin, zn, Pn, zl, Pl, A, f, M):
-- 
2.43.0


From 492de4698095b14da470d41bcdccccdd77b0027a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:07 +0000
Subject: [PATCH 25/37] fix: sum per-particle values in the objective with
 gradient

Values may be arrays (as returned when no gradient is needed), and gradients
columns (set_params of the model base classes stores the parameters as one);
the former made the objective an array, the latter raised ValueError.
---
 pyparticleest/paramest/interfaces.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyparticleest/paramest/interfaces.py b/pyparticleest/paramest/interfaces.py
index 0a26a18..454f187 100644
--- a/pyparticleest/paramest/interfaces.py
+++ b/pyparticleest/paramest/interfaces.py
@@ -147,8 +147,8 @@ class ParamEstInterface_GradientSearch(ParamEstInterface_GradientSearchFullTraj)
                 (val, grad) = self.eval_logp_y_val_grad(sest[t],
                                                         straj.y[t],
                                                         straj.t[t])
-                logp_y += val
-                logp_y_grad += grad
+                logp_y += numpy.sum(val)
+                logp_y_grad += numpy.ravel(grad)
         return (logp_y / M, logp_y_grad / M)
 
     def eval_logp_xnext_val_grad_fulltraj(self, straj, ut, tt):
@@ -162,8 +162,8 @@ class ParamEstInterface_GradientSearch(ParamEstInterface_GradientSearchFullTraj)
                                                         sest[t + 1],
                                                         straj.u[t],
                                                         straj.t[t])
-            logp_xnext += val
-            logp_xnext_grad += grad
+            logp_xnext += numpy.sum(val)
+            logp_xnext_grad += numpy.ravel(grad)
 
         return (logp_xnext / M, logp_xnext_grad / M)
 
-- 
2.43.0


From e997bbdd1175797fea282f93cf8897e8369d6a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:08 +0000
Subject: [PATCH 26/37] fix: initial-state term of the parameter estimation
 objective

The gradient was averaged over the parameters, and a value that is already a
sum over the particles was not divided by their number.
---
 pyparticleest/paramest/interfaces.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/paramest/interfaces.py b/pyparticleest/paramest/interfaces.py
index 454f187..6216368 100644
--- a/pyparticleest/paramest/interfaces.py
+++ b/pyparticleest/paramest/interfaces.py
@@ -250,7 +250,7 @@ class ParamEstBaseNumeric(ParamEstIntFullTraj):
                                                        straj.t)
             tmp = self.eval_logp_x0(straj.traj[0].pa.part,
                                     straj.t[0])
-            log_px0 = numpy.mean(tmp)
+            log_px0 = numpy.sum(tmp) / len(straj.traj[0].pa.part)
 
             val = -1.0 * (log_py + log_px0 + log_pxnext)
             return val
@@ -282,7 +282,8 @@ class ParamEstBaseNumericGrad(ParamEstInterface_GradientSearchFullTraj):
 
             (tmp1, tmp2) = self.eval_logp_x0_val_grad(straj.traj[0].pa.part,
                                                       straj.t[0])
-            (logp_x0, grad_logp_x0) = (numpy.mean(tmp1), numpy.mean(tmp2))
+            M = len(straj.traj[0].pa.part)
+            (logp_x0, grad_logp_x0) = (numpy.sum(tmp1) / M, numpy.ravel(tmp2) / M)
             val = -1.0 * (logp_y + logp_x0 + logp_xnext)
             grad = -1.0 * (grad_logp_y + grad_logp_xnext + grad_logp_x0)
             return (val, grad)
-- 
2.43.0


From 1cf52374e5f4b493158a6db0274425f342cce96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:08 +0000
Subject: [PATCH 27/37] fix: parameter search with parameters stored as a
 column

set_params of the model base classes stores the parameters as a column,
which scipy.optimize.minimize rejects as starting point.
---
 pyparticleest/paramest/interfaces.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/paramest/interfaces.py b/pyparticleest/paramest/interfaces.py
index 6216368..68283b4 100644
--- a/pyparticleest/paramest/interfaces.py
+++ b/pyparticleest/paramest/interfaces.py
@@ -255,7 +255,7 @@ class ParamEstBaseNumeric(ParamEstIntFullTraj):
             val = -1.0 * (log_py + log_px0 + log_pxnext)
             return val
 
-        res = scipy.optimize.minimize(fun=fval, x0=self.params, method='l-bfgs-b', jac=False,
+        res = scipy.optimize.minimize(fun=fval, x0=numpy.ravel(self.params), method='l-bfgs-b', jac=False,
                                       options=dict({'maxiter':10, 'maxfun':100}),
                                       bounds=self.param_bounds,)
         return res.x
@@ -288,7 +288,7 @@ class ParamEstBaseNumericGrad(ParamEstInterface_GradientSearchFullTraj):
             grad = -1.0 * (grad_logp_y + grad_logp_xnext + grad_logp_x0)
             return (val, grad)
 
-        res = scipy.optimize.minimize(fun=fval_grad, x0=self.params, method='l-bfgs-b', jac=True,
+        res = scipy.optimize.minimize(fun=fval_grad, x0=numpy.ravel(self.params), method='l-bfgs-b', jac=True,
                                       options=dict({'maxiter':10, 'maxfun':100}),
                                       bounds=self.param_bounds,)
 
-- 
2.43.0


From c9b44f0e6fb2a97e87a9440e25404f97bf1ecc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:08 +0000
Subject: [PATCH 28/37] fix: hierarchical smoothing sampled every trajectory
 from particle 0

The moments of the first particle were used for all trajectories, and
updated in place over and over.
---
 pyparticleest/models/hierarchial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/models/hierarchial.py b/pyparticleest/models/hierarchial.py
index 589436b..c00e9e4 100644
--- a/pyparticleest/models/hierarchial.py
+++ b/pyparticleest/models/hierarchial.py
@@ -160,7 +160,7 @@ class HierarchicalBase(RBPSBase):
         res = numpy.zeros((M, self.lxi + self.kf.lz + 2 * self.kf.lz ** 2))
         for j in range(M):
             partj = numpy.copy(part[j:j + 1])
-            (xil, zl, Pl) = self.get_states(part,)
+            (xil, zl, Pl) = self.get_states(partj)
             if (future_trajs is not None):
                 (A, f, Q, _, _, _) = self.get_lin_pred_dynamics_int(partj,
                                                                     ut[cur_ind],
-- 
2.43.0


From e0b2f273f3921abcca712b23519507f2ddb810f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:08 +0000
Subject: [PATCH 29/37] fix: bound on the transition density of hierarchical
 models

The log-determinant was not multiplied by -1/2, so the bound could be below
attainable densities.
---
 pyparticleest/models/hierarchial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/models/hierarchial.py b/pyparticleest/models/hierarchial.py
index c00e9e4..3b731bb 100644
--- a/pyparticleest/models/hierarchial.py
+++ b/pyparticleest/models/hierarchial.py
@@ -259,7 +259,7 @@ class HierarchicalRSBase(HierarchicalBase, FFBSiRS):
         for i in range(N):
             # Predict z_{t+1}
             Pn = Az[i].dot(Pl[i]).dot(Az[i].T) + Qz[i]
-            lpz[i] = -0.5 * nx * math.log(2 * math.pi) + numpy.linalg.slogdet(Pn)[1]
+            lpz[i] = -0.5 * (nx * math.log(2 * math.pi) + numpy.linalg.slogdet(Pn)[1])
         lpmax = numpy.max(lpxi + lpz)
         return lpmax
 
-- 
2.43.0


From 06bdfbed08fcdcf53e38778cbe0d98cc84f21043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:08 +0000
Subject: [PATCH 30/37] fix: PSAEM with Rao-Blackwellization used uninitialized
 trajectories

---
 pyparticleest/paramest/paramest.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyparticleest/paramest/paramest.py b/pyparticleest/paramest/paramest.py
index 64bcae7..0113d8c 100644
--- a/pyparticleest/paramest/paramest.py
+++ b/pyparticleest/paramest/paramest.py
@@ -245,6 +245,8 @@ class ParamEstimationPSAEM(Simulator):
                 T = len(tmp)
                 D = tmp[0].pa.part.shape[1]
                 newtrajs = numpy.empty((T, N, D))
+                for t in range(T):
+                    newtrajs[t] = tmp[t].pa.part
 
             else:
                 newtrajs = self.get_smoothed_estimates()
-- 
2.43.0


From abeb7b8c289dbbd018313c5d3fe53e582200b1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:08 +0000
Subject: [PATCH 31/37] fix: SAEM could not combine trajectories of several
 iterations

The trajectories were an array of time steps, which has no trajectory axis
to concatenate along or to select from.
---
 pyparticleest/paramest/paramest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/paramest/paramest.py b/pyparticleest/paramest/paramest.py
index 0113d8c..10c5790 100644
--- a/pyparticleest/paramest/paramest.py
+++ b/pyparticleest/paramest/paramest.py
@@ -155,7 +155,7 @@ class ParamEstimationSAEM(Simulator):
                           meas_first=meas_first)
 
             w = numpy.ones((numt,)) / numt
-            newtrajs = numpy.copy(self.straj.traj)
+            newtrajs = self.get_smoothed_estimates()
             alpha = alpha_gen(i)
             if (weights is None):
                 weights = w
-- 
2.43.0


From ce24a9ece350ae3995a05e4b6aa65af212ee9e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:58 +0000
Subject: [PATCH 32/37] fix: forward uncounted operations of an instrumented
 model

---
 pyparticleest/utils/intrument.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pyparticleest/utils/intrument.py b/pyparticleest/utils/intrument.py
index 6afe3f3..ab6c369 100644
--- a/pyparticleest/utils/intrument.py
+++ b/pyparticleest/utils/intrument.py
@@ -61,6 +61,13 @@ class Instrumenter(object):
         self.model = model
         self.oc = OpCount()
 
+    def __getattr__(self, name):
+        # Operations that are not counted are those of the wrapped model, and
+        # only exist if the model has them (e.g. post_smoothing)
+        if (name == 'model' or name.startswith('__')):
+            raise AttributeError(name)
+        return getattr(self.model, name)
+
     def print_statistics(self):
         print("Modelclass : %s" % type(self.model))
         print("cnt_sample: %d" % self.cnt_sample)
@@ -147,12 +154,6 @@ class Instrumenter(object):
         self.oc.cnt_eval1st += len(particles)
         return self.model.eval_1st_stage_weights(particles, u, y, t)
 
-    def pre_mhips_pass(self, st):
-        return self.model.pre_mhips_pass(st)
-
-    def post_smoothing(self, st):
-        return self.model.post_smoothing(st)
-
     def eval_logp_x0(self, particles, t):
         self.oc.cnt_eval_logp_x0 += len(particles)
         return self.model.eval_logp_x0(particles, t)
-- 
2.43.0


From 3323ac093fd5263d6e3338041445dcc7e3023a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:04 +0000
Subject: [PATCH 33/37] fix: provide the documented counters of the
 instrumenter

---
 pyparticleest/utils/intrument.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyparticleest/utils/intrument.py b/pyparticleest/utils/intrument.py
index ab6c369..b04ccb7 100644
--- a/pyparticleest/utils/intrument.py
+++ b/pyparticleest/utils/intrument.py
@@ -66,6 +66,8 @@ class Instrumenter(object):
         # only exist if the model has them (e.g. post_smoothing)
         if (name == 'model' or name.startswith('__')):
             raise AttributeError(name)
+        if (name.startswith('cnt_')):
+            return getattr(self.oc, name)
         return getattr(self.model, name)
 
     def print_statistics(self):
@@ -73,7 +75,7 @@ class Instrumenter(object):
         print("cnt_sample: %d" % self.cnt_sample)
         print("cnt_update: %d" % self.cnt_update)
         print("cnt_measure: %d" % self.cnt_measure)
-        print("cnt_pdfxn: %d" % self.cnt_pdfxn + self.cnt_pdfxn_full)
+        print("cnt_pdfxn: %d" % (self.cnt_pdfxn + self.cnt_pdfxn_full))
         print("cnt_pdfxnmax: %d" % self.cnt_pdfxnmax)
         print("cnt_propsmooth: %d" % self.cnt_propsmooth)
         print("cnt_pdfsmooth: %d" % self.cnt_pdfsmooth)
-- 
2.43.0


From 7470821bfbae97ec64bdc6aac955c34d94400676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:17 +0000
Subject: [PATCH 34/37] fix: transition gradients failed for models with a
 different A for each particle

calc_A_f_Q returns a list of matrices when A is not the same for all
particles, compute_l2_grad_A indexes it as an array.
---
 pyparticleest/models/mlnlg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index f63919f..8ac208a 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -811,6 +811,8 @@ class MixedNLGaussianSampled(RBPSBase):
             mlnlg_compute.compute_l2_grad_f(N, len(self.params), self.lxi + self.kf.lz, diff_l2,
                               perr, f_grad, tmp1)
         if (A_grad is not None):
+            # A is a list when the matrices differ between the particles
+            A = numpy.asarray(A, dtype=numpy.double)
             mlnlg_compute.compute_l2_grad_A(N, len(self.params), self.lxi + self.kf.lz, diff_l2,
                               perr, self.lxi, Pn, zl, Pl, M, A, A_grad, tmp1, tmp2)
         return (l2, diff_l2)
-- 
2.43.0


From b8699433e90b5bf83c54183cd35aae68ce770d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:21 +0000
Subject: [PATCH 35/37] fix: CSIRAS keeps its log-weights from underflowing

---
 pyparticleest/filter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index c3debcc..8f99695 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -404,6 +404,10 @@ class CSIRAS(SIR):
 
 
         pa.w = yw + nw - qw
+        # Keep the weights from reaching to small values
+        m = numpy.max(pa.w)
+        pa.w_offset += m
+        pa.w -= m
 
         pa.part[:] = pnext
         resampled = True
-- 
2.43.0


From ec490c2bb4cb61be6b8080dc3e0ffabfeb5de953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:10 +0000
Subject: [PATCH 36/37] fix: ParticleApproximation.sample with small
 log-weights

---
 pyparticleest/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index 8f99695..0d4b714 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -1150,7 +1150,7 @@ class ParticleApproximation(object):
 
         Returns:
          (array-like) sampled particle"""
-        return self.part[sample(numpy.exp(self.w), 1)[0]]
+        return self.part[sample(numpy.exp(self.w - numpy.max(self.w)), 1)[0]]
 
     def find_best_particles(self, n=1):
         """
-- 
2.43.0


From d06f193fd98b5065a543ed26731b6a95d796697a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:22 +0000
Subject: [PATCH 37/37] fix: initial-state term of the gradient test

The initial-state density was averaged even when the model returns the sum
over the particles, and its gradient was averaged over the parameters
instead of divided by the number of trajectories.
---
 pyparticleest/paramest/gradienttest.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyparticleest/paramest/gradienttest.py b/pyparticleest/paramest/gradienttest.py
index ba96f4d..fab65e6 100644
--- a/pyparticleest/paramest/gradienttest.py
+++ b/pyparticleest/paramest/gradienttest.py
@@ -51,7 +51,8 @@ class GradientTest(ParamEstimation):
                                                              self.straj.t)
             tmp = self.model.eval_logp_x0(self.straj.traj[0].pa.part,
                                           self.straj.t[0])
-            logpx0[k] = numpy.mean(tmp)
+            M = len(self.straj.traj[0].pa.part)
+            logpx0[k] = numpy.sum(tmp) / M
 
             if (analytic_grad):
                 (_, grad_logp_y) = self.model.eval_logp_y_val_grad_fulltraj(self.straj,
@@ -60,9 +61,9 @@ class GradientTest(ParamEstimation):
                 (_, grad_logp_xnext) = self.model.eval_logp_xnext_val_grad_fulltraj(self.straj,
                                                                                      self.straj.u,
                                                                                      self.straj.t)
-                (tmp1, tmp2) = self.model.eval_logp_x0_val_grad(self.straj.traj[0].pa.part,
-                                                                self.straj.t[0])
-                (_, grad_logp_x0) = (numpy.mean(tmp1), numpy.mean(tmp2))
+                (_, tmp) = self.model.eval_logp_x0_val_grad(self.straj.traj[0].pa.part,
+                                                              self.straj.t[0])
+                grad_logp_x0 = numpy.ravel(tmp) / M
 
                 grad_logpy[k] = grad_logp_y
                 grad_logpxn[k] = grad_logp_xnext
-- 
2.43.0

