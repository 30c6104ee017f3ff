From c78ce9a7700c31a9a7ebd9ddd1520300fb146003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:36 +0000
Subject: [PATCH 001/107] fix: e2i_data returns sparse data with several blocks
 reordered

The stacked result was computed and dropped, so a sparse A or N came back in
external ordering.
---
 pypower/e2i_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/e2i_data.py b/pypower/e2i_data.py
index c8de659..a359f9c 100644
--- a/pypower/e2i_data.py
+++ b/pypower/e2i_data.py
@@ -84,9 +84,9 @@ def e2i_data(ppc, val, ordering, dim=0):
 
         if issparse(new_v[0]):
             if dim == 0:
-                vstack(new_v, 'csr')
+                val = vstack(new_v, 'csr')
             elif dim == 1:
-                hstack(new_v, 'csr')
+                val = hstack(new_v, 'csr')
             else:
                 raise ValueError('dim (%d) may be 0 or 1' % dim)
         else:
-- 
2.43.0


From 719639cbee3020c30cb24be77b56c1863c5a83de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:36 +0000
Subject: [PATCH 002/107] fix: i2e_data handles sparse data with several blocks

---
 pypower/i2e_data.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pypower/i2e_data.py b/pypower/i2e_data.py
index 2620d54..646a553 100644
--- a/pypower/i2e_data.py
+++ b/pypower/i2e_data.py
@@ -6,6 +6,8 @@ import sys
 
 from numpy import arange, concatenate
 
+from scipy.sparse import issparse, vstack, hstack
+
 from pypower.get_reorder import get_reorder
 from pypower.set_reorder import set_reorder
 
@@ -88,6 +90,14 @@ def i2e_data(ppc, val, oldval, ordering, dim=0):
         if ni > bi:              ## the rest
             v = get_reorder(val, arange(bi, ni), dim)
             new_v.append(v)
-        val = concatenate(new_v, dim)
+        if issparse(new_v[0]):
+            if dim == 0:
+                val = vstack(new_v, 'csr')
+            elif dim == 1:
+                val = hstack(new_v, 'csr')
+            else:
+                raise ValueError('dim (%d) may be 0 or 1' % dim)
+        else:
+            val = concatenate(new_v, dim)
 
     return val
-- 
2.43.0


From 28ed0d1afd7ad5080cdfc94d47e30ace2958ae3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:37 +0000
Subject: [PATCH 003/107] fix: e2i_field and i2e_field reach fields nested
 below an existing record

---
 pypower/e2i_field.py | 2 +-
 pypower/i2e_field.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/e2i_field.py b/pypower/e2i_field.py
index c458190..362e69a 100644
--- a/pypower/e2i_field.py
+++ b/pypower/e2i_field.py
@@ -55,7 +55,7 @@ def e2i_field(ppc, field, ordering, dim=0):
         for fld in field:
             if fld not in v_ext:
                 v_ext[fld] = {}
-                v_ext = v_ext[fld]
+            v_ext = v_ext[fld]
 
     exec('ppc["order"]["ext"]%s = ppc%s.copy()' % (key, key))
     exec('ppc%s = e2i_data(ppc, ppc%s, ordering, dim)' % (key, key))
diff --git a/pypower/i2e_field.py b/pypower/i2e_field.py
index 67c46bd..345fa85 100644
--- a/pypower/i2e_field.py
+++ b/pypower/i2e_field.py
@@ -47,7 +47,7 @@ def i2e_field(ppc, field, ordering, dim=0):
         for fld in field:
             if fld not in v_int:
                 v_int[fld] = {}
-                v_int = v_int[fld]
+            v_int = v_int[fld]
 
     exec('ppc["order"]["int"]%s = ppc%s.copy()' % (key, key))
     exec('ppc%s = i2e_data(ppc, ppc%s, ppc["order"]["ext"]%s, ordering, dim)' %
-- 
2.43.0


From 9c9d2355a1465314f00a206315ed25007ff463da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:31 +0000
Subject: [PATCH 004/107] fix: ext2int orders generators at the same bus as in
 the case on every platform

---
 pypower/ext2int.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/ext2int.py b/pypower/ext2int.py
index d3a8a85..5100a89 100644
--- a/pypower/ext2int.py
+++ b/pypower/ext2int.py
@@ -166,7 +166,7 @@ def ext2int(ppc, val_or_field=None, ordering=None, dim=0):
                         PRICE_REF_BUS].astype(int) ].copy()
 
             ## reorder gens in order of increasing bus number
-            o["gen"]["e2i"] = argsort(ppc["gen"][:, GEN_BUS])
+            o["gen"]["e2i"] = argsort(ppc["gen"][:, GEN_BUS], kind="mergesort")
             o["gen"]["i2e"] = argsort(o["gen"]["e2i"])
 
             ppc["gen"] = ppc["gen"][o["gen"]["e2i"].astype(int), :]
-- 
2.43.0


From ddbd1535cb41412754e51771bdd70538d89d4580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:48 +0000
Subject: [PATCH 005/107] fix: fast-decoupled power flow works without PQ buses

---
 pypower/fdpf.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/pypower/fdpf.py b/pypower/fdpf.py
index 64c1252..3e47793 100644
--- a/pypower/fdpf.py
+++ b/pypower/fdpf.py
@@ -60,8 +60,8 @@ def fdpf(Ybus, Sbus, V0, Bp, Bpp, ref, pv, pq, ppopt=None):
     Q = mis[pq].imag
 
     ## check tolerance
-    normP = linalg.norm(P, inf)
-    normQ = linalg.norm(Q, inf)
+    normP = linalg.norm(P, inf) if len(P) else 0.0
+    normQ = linalg.norm(Q, inf) if len(Q) else 0.0
     if verbose > 1:
         sys.stdout.write('\niteration     max mismatch (p.u.)  ')
         sys.stdout.write('\ntype   #        P            Q     ')
@@ -78,7 +78,7 @@ def fdpf(Ybus, Sbus, V0, Bp, Bpp, ref, pv, pq, ppopt=None):
 
     ## factor B matrices
     Bp_solver = splu(Bp)
-    Bpp_solver = splu(Bpp)
+    Bpp_solver = splu(Bpp) if len(pq) else None    ## no PQ buses, no Q iteration
 
     ## do P and Q iterations
     while (not converged and i < max_it):
@@ -98,8 +98,8 @@ def fdpf(Ybus, Sbus, V0, Bp, Bpp, ref, pv, pq, ppopt=None):
         Q = mis[pq].imag
 
         ## check tolerance
-        normP = linalg.norm(P, inf)
-        normQ = linalg.norm(Q, inf)
+        normP = linalg.norm(P, inf) if len(P) else 0.0
+        normQ = linalg.norm(Q, inf) if len(Q) else 0.0
         if verbose > 1:
             sys.stdout.write("\n  %s  %3d   %10.3e   %10.3e" %
                              (type,i, normP, normQ))
@@ -111,10 +111,11 @@ def fdpf(Ybus, Sbus, V0, Bp, Bpp, ref, pv, pq, ppopt=None):
             break
 
         ##-----  do Q iteration, update Vm  -----
-        dVm = -Bpp_solver.solve(Q)
+        if len(pq):
+            dVm = -Bpp_solver.solve(Q)
 
-        ## update voltage
-        Vm[pq] = Vm[pq] + dVm
+            ## update voltage
+            Vm[pq] = Vm[pq] + dVm
         V = Vm * exp(1j * Va)
 
         ## evalute mismatch
@@ -123,8 +124,8 @@ def fdpf(Ybus, Sbus, V0, Bp, Bpp, ref, pv, pq, ppopt=None):
         Q = mis[pq].imag
 
         ## check tolerance
-        normP = linalg.norm(P, inf)
-        normQ = linalg.norm(Q, inf)
+        normP = linalg.norm(P, inf) if len(P) else 0.0
+        normQ = linalg.norm(Q, inf) if len(Q) else 0.0
         if verbose > 1:
             sys.stdout.write('\n  Q  %3d   %10.3e   %10.3e' % (i, normP, normQ))
         if normP < tol and normQ < tol:
-- 
2.43.0


From 559322b67b11e44cf64c39101e96cfa65c8865b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:45 +0000
Subject: [PATCH 006/107] fix: enforcing generator Q limits in runpf works,
 keeps a controlled bus and restores roles and angles

---
 pypower/runpf.py | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/pypower/runpf.py b/pypower/runpf.py
index 8ffcf4e..7bfaf31 100644
--- a/pypower/runpf.py
+++ b/pypower/runpf.py
@@ -11,7 +11,7 @@ from os.path import dirname, join
 
 from time import time
 
-from numpy import r_, c_, ix_, zeros, pi, ones, exp, argmax, union1d
+from numpy import r_, c_, ix_, zeros, pi, ones, exp, argmax, union1d, isin
 from numpy import flatnonzero as find
 
 from pypower.bustypes import bustypes
@@ -208,10 +208,11 @@ def runpf(casedata=None, ppopt=None, fname='', solvedcase=''):
                 if len(mx) > 0 or len(mn) > 0:  ## we have some Q limit violations
                     # first check for INFEASIBILITY (all remaining gens violating)
                     infeas = union1d(mx, mn)
-                    remaining = find( gen_status & 
-                                     (bus[gen[:, GEN_BUS], BUS_TYPE] == PV | 
-                                      bus[gen[:, GEN_BUS], BUS_TYPE] == REF))
-                    if len(infeas) == len(remaining) or all(infeas == remaining):
+                    gen_bus_type = bus[gen[:, GEN_BUS].astype(int), BUS_TYPE]
+                    remaining = find( gen_status &
+                                     ((gen_bus_type == PV) |
+                                      (gen_bus_type == REF)))
+                    if all(isin(remaining, infeas)):
                         if verbose:
                             print('All %d remaining gens exceed to their Q limits: INFEASIBLE PROBLEM\n' % len(infeas))
                         
@@ -222,12 +223,20 @@ def runpf(casedata=None, ppopt=None, fname='', solvedcase=''):
                     if qlim == 2:    ## fix largest violation, ignore the rest
                         k = argmax(r_[gen[mx, QG] - gen[mx, QMAX],
                                       gen[mn, QMIN] - gen[mn, QG]])
-                        if k > len(mx):
-                            mn = mn[k - len(mx)]
-                            mx = []
+                        if k >= len(mx):
+                            mn = mn[[k - len(mx)]]
+                            mx = mx[:0]
                         else:
-                            mx = mx[k]
-                            mn = []
+                            mx = mx[[k]]
+                            mn = mn[:0]
+
+                    ## would no voltage controlled bus be left?
+                    if all(isin(gen[remaining, GEN_BUS], gen[r_[mx, mn], GEN_BUS])):
+                        if verbose:
+                            print('No bus left with gens inside their Q limits: INFEASIBLE PROBLEM\n')
+
+                        success = 0
+                        break
 
                     if verbose and len(mx) > 0:
                         for i in range(len(mx)):
@@ -249,7 +258,7 @@ def runpf(casedata=None, ppopt=None, fname='', solvedcase=''):
                         bi = gen[mx[i], GEN_BUS].astype(int)   ## adjust load accordingly,
                         bus[bi, [PD, QD]] = (bus[bi, [PD, QD]] - gen[mx[i], [PG, QG]])
                     
-                    if len(ref) > 1 and any(bus[gen[mx, GEN_BUS], BUS_TYPE] == REF):
+                    if len(ref) > 1 and any(bus[gen[mx, GEN_BUS].astype(int), BUS_TYPE] == REF):
                         raise ValueError('Sorry, PYPOWER cannot enforce Q '
                                          'limits for slack buses in systems '
                                          'with multiple slacks.')
@@ -263,11 +272,11 @@ def runpf(casedata=None, ppopt=None, fname='', solvedcase=''):
                     # previous line can modify lists to select new REF bus
                     # if there was none, so we should update bus with these
                     # just to keep them consistent
-                    if ref != ref_temp:
+                    if list(ref) != list(ref_temp):
                         bus[ref, BUS_TYPE] = REF
-                        bus[pv, BUS_TYPE] = pv
+                        bus[pv, BUS_TYPE] = PV
                         if verbose:
-                            print('Bus %d is new slack bus\n' % ref)
+                            print('Bus %d is new slack bus\n' % ref[0])
 
                     limited = r_[limited, mx].astype(int)
                 else:
@@ -279,11 +288,11 @@ def runpf(casedata=None, ppopt=None, fname='', solvedcase=''):
             ## restore injections from limited gens [those at Q limits]
             gen[limited, QG] = fixedQg[limited]    ## restore Qg value,
             for i in range(len(limited)):               ## [one at a time, since they may be at same bus]
-                bi = gen[limited[i], GEN_BUS]           ## re-adjust load,
+                bi = int(gen[limited[i], GEN_BUS])      ## re-adjust load,
                 bus[bi, [PD, QD]] = bus[bi, [PD, QD]] + gen[limited[i], [PG, QG]]
                 gen[limited[i], GEN_STATUS] = 1           ## and turn gen back on
             
-            if ref != ref0:
+            if list(ref) != list(ref0):
                 ## adjust voltage angles to make original ref bus correct
                 bus[:, VA] = bus[:, VA] - bus[ref0, VA] + Varef0
 
-- 
2.43.0


From a2854cddf0c4d8634c38ceb2ef647a6191b36f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:45 +0000
Subject: [PATCH 007/107] fix: pfsoln shares reactive power among units with
 infinite limits

---
 pypower/pfsoln.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pypower/pfsoln.py b/pypower/pfsoln.py
index 5ffd047..c16cb63 100644
--- a/pypower/pfsoln.py
+++ b/pypower/pfsoln.py
@@ -6,6 +6,7 @@
 """
 
 from numpy import asarray, angle, pi, conj, zeros, ones, finfo, c_, ix_
+from numpy import isinf, sign, where
 from numpy import flatnonzero as find
 
 from scipy.sparse import csr_matrix
@@ -59,9 +60,18 @@ def pfsoln(baseMVA, bus0, gen0, branch0, Ybus, Yf, Yt, V, ref, pv, pq):
         gen[on, QG] = gen[on, QG] / ngg
 
         ## divide proportionally
-        Cmin = csr_matrix((gen[on, QMIN], (range(ngon), gbus)), (ngon, nb))
-        Cmax = csr_matrix((gen[on, QMAX], (range(ngon), gbus)), (ngon, nb))
         Qg_tot = Cg.T * gen[on, QG]## nb x 1 vector of total Qg at each bus
+        ## (infinite limits are replaced by a finite proxy beyond everything
+        ##  else at the bus)
+        Qmin = gen[on, QMIN].copy()
+        Qmax = gen[on, QMAX].copy()
+        M = abs(gen[on, QG]) + where(isinf(Qmin), 0, abs(Qmin)) + \
+            where(isinf(Qmax), 0, abs(Qmax)) + 1
+        M = Cg * (Cg.T * M)
+        Qmin = where(isinf(Qmin), sign(Qmin) * M, Qmin)
+        Qmax = where(isinf(Qmax), sign(Qmax) * M, Qmax)
+        Cmin = csr_matrix((Qmin, (range(ngon), gbus)), (ngon, nb))
+        Cmax = csr_matrix((Qmax, (range(ngon), gbus)), (ngon, nb))
         Qg_min = Cmin.sum(0).T       ## nb x 1 vector of min total Qg at each bus
         Qg_max = Cmax.sum(0).T       ## nb x 1 vector of max total Qg at each bus
         Qg_min = asarray(Qg_min).flatten()  # 1D array
@@ -69,9 +79,9 @@ def pfsoln(baseMVA, bus0, gen0, branch0, Ybus, Yf, Yt, V, ref, pv, pq):
         ## gens at buses with Qg range = 0
         ig = find(Cg * Qg_min == Cg * Qg_max)
         Qg_save = gen[on[ig], QG]
-        gen[on, QG] = gen[on, QMIN] + \
+        gen[on, QG] = Qmin + \
             (Cg * ((Qg_tot - Qg_min) / (Qg_max - Qg_min + EPS))) * \
-                (gen[on, QMAX] - gen[on, QMIN])    ##    ^ avoid div by 0
+                (Qmax - Qmin)    ##    ^ avoid div by 0
         gen[on[ig], QG] = Qg_save  ## (terms are mult by 0 anyway)
 
     ## update Pg for slack bus(es)
-- 
2.43.0


From f858d005c8acfe318dbdcc088f828aa60a2414eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:31 +0000
Subject: [PATCH 008/107] fix: gausspf leaves the caller's injections unchanged

---
 pypower/gausspf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pypower/gausspf.py b/pypower/gausspf.py
index 2ca8b2b..dce586d 100644
--- a/pypower/gausspf.py
+++ b/pypower/gausspf.py
@@ -47,6 +47,7 @@ def gausspf(Ybus, Sbus, V0, ref, pv, pq, ppopt=None):
     converged = 0
     i = 0
     V = V0.copy()
+    Sbus = Sbus.copy()
     #Va = angle(V)
     Vm = abs(V)
 
-- 
2.43.0


From 5d4864cc5580d193a5742987201541da6f9e463e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:15 +0000
Subject: [PATCH 009/107] fix: makePTDF accepts slack weights as a column
 vector

---
 pypower/makePTDF.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypower/makePTDF.py b/pypower/makePTDF.py
index 6d0cf45..05bdaab 100644
--- a/pypower/makePTDF.py
+++ b/pypower/makePTDF.py
@@ -62,7 +62,8 @@ def makePTDF(baseMVA, bus, branch, slack=None):
 
     ## distribute slack, if requested
     if not isscalar(slack):
-        if len(slack.shape) == 1:  ## slack is a vector of weights
+        if slack.ndim == 1 or slack.shape[1] == 1:  ## slack is a vector of weights
+            slack = slack.flatten()
             slack = slack / sum(slack)   ## normalize weights
 
             ## conceptually, we want to do ...
-- 
2.43.0


From d2bb37666994021a6acc0d2cbc89b31c16176be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:57 +0000
Subject: [PATCH 010/107] fix: opf_model blocks keep the variable sets they
 were added with

---
 pypower/opf_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/opf_model.py b/pypower/opf_model.py
index 861c455..d9cfbad 100644
--- a/pypower/opf_model.py
+++ b/pypower/opf_model.py
@@ -225,7 +225,7 @@ class opf_model(object):
                 u = inf * ones(N)
 
             if len(varsets) == 0:
-                varsets = self.var["order"]
+                varsets = list(self.var["order"])
 
             ## check sizes
             if (l.shape[0] != N) or (u.shape[0] != N):
@@ -309,7 +309,7 @@ class opf_model(object):
             varsets = []
 
         if len(varsets) == 0:
-            varsets = self.var["order"]
+            varsets = list(self.var["order"])
 
         nw, nx = cp["N"].shape
 
-- 
2.43.0


From 04f214f74f82a0531d4f4ae51fd582be5f5448c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:58 +0000
Subject: [PATCH 011/107] fix: opf_model uses the parameters of each user cost
 block

---
 pypower/opf_model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pypower/opf_model.py b/pypower/opf_model.py
index d9cfbad..f971ae2 100644
--- a/pypower/opf_model.py
+++ b/pypower/opf_model.py
@@ -358,16 +358,16 @@ class opf_model(object):
             self.cost["data"]["H"][name]  = cp["H"]
 
         if 'dd' in cp:
-            self.cost["data"]["dd"]["name"] = cp["dd"]
+            self.cost["data"]["dd"][name] = cp["dd"]
 
         if 'rh' in cp:
-            self.cost["data"]["rh"]["name"] = cp["rh"]
+            self.cost["data"]["rh"][name] = cp["rh"]
 
         if 'kk' in cp:
-            self.cost["data"]["kk"]["name"] = cp["kk"]
+            self.cost["data"]["kk"][name] = cp["kk"]
 
         if 'mm' in cp:
-            self.cost["data"]["mm"]["name"] = cp["mm"]
+            self.cost["data"]["mm"][name] = cp["mm"]
 
         ## update number of vars and var sets
         self.cost["N"]  = self.cost["idx"]["iN"][name]
-- 
2.43.0


From e7c600555dd681817d1f34c011ed317b2d14648d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:58 +0000
Subject: [PATCH 012/107] fix: asking for the costs of one block leaves the
 model unchanged

---
 pypower/opf_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/opf_model.py b/pypower/opf_model.py
index f971ae2..4c17bbd 100644
--- a/pypower/opf_model.py
+++ b/pypower/opf_model.py
@@ -584,10 +584,10 @@ class opf_model(object):
         if not 'params' in self.cost:
             stderr.write('opf_model.get_cost_params: must call build_cost_params first\n')
 
-        cp = self.cost["params"]
+        cp = self.cost["params"].copy()
 
         if name is not None:
-            if self.getN('cost', name):
+            if name in self.cost["idx"]["N"]:
                 idx = arange(self.cost["idx"]["i1"][name], self.cost["idx"]["iN"][name])
                 nwa = self.cost["idx"]["i1"][name]
                 nwb = self.cost["idx"]["iN"][name]
-- 
2.43.0


From 3bdc9f14f6f34a8cb445c06ea159d626e30def01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:58 +0000
Subject: [PATCH 013/107] fix: opf_model evaluates costs without any cost rows

---
 pypower/opf_costfcn.py | 8 ++++----
 pypower/opf_hessfcn.py | 4 ++--
 pypower/opf_model.py   | 7 +++----
 3 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/pypower/opf_costfcn.py b/pypower/opf_costfcn.py
index ab58406..b323b3e 100644
--- a/pypower/opf_costfcn.py
+++ b/pypower/opf_costfcn.py
@@ -6,7 +6,7 @@
 """
 
 from numpy import array, ones, zeros, arange, r_, dot, flatnonzero as find
-from scipy.sparse import issparse, csr_matrix as sparse
+from scipy.sparse import csr_matrix as sparse
 
 from pypower.idx_cost import MODEL, POLYNOMIAL
 
@@ -73,7 +73,7 @@ def opf_costfcn(x, om, return_hessian=False):
         ccost = zeros(nxyz)
 
     ## generalized cost term
-    if issparse(N) and N.nnz > 0:
+    if N.shape[0] > 0:
         nw = N.shape[0]
         r = N * x - rh                   ## Nx - rhat
         iLT = find(r < -kk)              ## below dead zone
@@ -111,7 +111,7 @@ def opf_costfcn(x, om, return_hessian=False):
     df = df + ccost  # The linear cost row is additive wrt any nonlinear cost.
 
     ## generalized cost term
-    if issparse(N) and N.nnz > 0:
+    if N.shape[0] > 0:
         HwC = H * w + Cw
         AA = N.T * M * (LL + 2 * QQ * diagrr)
         df = df + AA * HwC
@@ -160,7 +160,7 @@ def opf_costfcn(x, om, return_hessian=False):
     d2f = sparse((r_[d2f_dPg2, d2f_dQg2], (i, i)), (nxyz, nxyz))
 
     ## generalized cost
-    if N is not None and issparse(N):
+    if N.shape[0] > 0:
         d2f = d2f + AA * H * AA.T + 2 * N.T * M * QQ * \
                 sparse((HwC, (range(nw), range(nw))), (nw, nw)) * N
 
diff --git a/pypower/opf_hessfcn.py b/pypower/opf_hessfcn.py
index de842f5..c0e9ba2 100644
--- a/pypower/opf_hessfcn.py
+++ b/pypower/opf_hessfcn.py
@@ -6,7 +6,7 @@
 """
 
 from numpy import array, zeros, ones, exp, arange, r_, flatnonzero as find
-from scipy.sparse import vstack, hstack, issparse, csr_matrix as sparse
+from scipy.sparse import vstack, hstack, csr_matrix as sparse
 
 from pypower.idx_gen import PG, QG
 from pypower.idx_brch import F_BUS, T_BUS
@@ -114,7 +114,7 @@ def opf_hessfcn(x, lmbda, om, Ybus, Yf, Yt, ppopt, il=None, cost_mult=1.0):
     d2f = sparse((r_[d2f_dPg2, d2f_dQg2], (i, i)), (nxyz, nxyz))
 
     ## generalized cost
-    if issparse(N) and N.nnz > 0:
+    if N.shape[0] > 0:
         nw = N.shape[0]
         r = N * x - rh                    ## Nx - rhat
         iLT = find(r < -kk)               ## below dead zone
diff --git a/pypower/opf_model.py b/pypower/opf_model.py
index 4c17bbd..5c2e670 100644
--- a/pypower/opf_model.py
+++ b/pypower/opf_model.py
@@ -320,7 +320,7 @@ class opf_model(object):
 
         if nx != nv:
             if nw == 0:
-                cp["N"] = sparse(nw, nx)
+                cp = dict(cp, N=sparse((nw, nv)))
             else:
                 stderr.write('opf_model.add_costs: number of columns in N (%d x %d) does not match\nnumber of variables (%d)\n' % (nw, nx, nv))
 
@@ -480,9 +480,8 @@ class opf_model(object):
                 if name in self.cost["data"]["mm"]:
                     mm[i1:iN] = self.cost["data"]["mm"][name]
 
-        if nw:
-            N = sparse(N)
-            H = sparse(H)
+        N = sparse(N)
+        H = sparse(H)
 
         ## save in object
         self.cost["params"] = {
-- 
2.43.0


From 1e99e6288c4cb7406bcd2a4a6aef9023471c8455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:06 +0000
Subject: [PATCH 014/107] fix: opf_costfcn includes the cost of the first unit

---
 pypower/opf_costfcn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/opf_costfcn.py b/pypower/opf_costfcn.py
index b323b3e..25f66b5 100644
--- a/pypower/opf_costfcn.py
+++ b/pypower/opf_costfcn.py
@@ -58,7 +58,7 @@ def opf_costfcn(x, om, return_hessian=False):
     # formulation, pwl cost is the sum of the y variables.
     ipol = find(gencost[:, MODEL] == POLYNOMIAL)   ## poly MW and MVAr costs
     xx = r_[ Pg, Qg ] * baseMVA
-    if any(ipol):
+    if len(ipol):
         f = sum( totcost(gencost[ipol, :], xx[ipol]) )  ## cost of poly P or Q
     else:
         f = 0
-- 
2.43.0


From 9d4c499b9d47a7b81a33ff6770f17d15263a11ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:40 +0000
Subject: [PATCH 015/107] fix: totcost accepts a matrix of generation levels

---
 pypower/totcost.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pypower/totcost.py b/pypower/totcost.py
index 90a0954..57f38fd 100644
--- a/pypower/totcost.py
+++ b/pypower/totcost.py
@@ -5,7 +5,7 @@
 """Computes total cost for generators at given output level.
 """
 
-from numpy import zeros, arange
+from numpy import zeros, arange, ndim, shape
 from numpy import flatnonzero as find
 
 from pypower.polycost import polycost
@@ -24,6 +24,12 @@ def totcost(gencost, Pg):
     @author: Carlos E. Murillo-Sanchez (PSERC Cornell & Universidad
     Autonoma de Manizales)
     """
+    if ndim(Pg) > 1:
+        totalcost = zeros(shape(Pg))
+        for k in range(shape(Pg)[1]):
+            totalcost[:, k] = totcost(gencost, Pg[:, k])
+        return totalcost
+
     ng, m = gencost.shape
     totalcost = zeros(ng)
 
-- 
2.43.0


From 65b840e01e270526fbdc8300d86488789161859f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:53 +0000
Subject: [PATCH 016/107] fix: poly2pwl converts polynomial costs

---
 pypower/poly2pwl.py | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/pypower/poly2pwl.py b/pypower/poly2pwl.py
index d7b0b2d..71cb2e5 100644
--- a/pypower/poly2pwl.py
+++ b/pypower/poly2pwl.py
@@ -5,7 +5,7 @@
 """Converts polynomial cost variable to piecewise linear.
 """
 
-from numpy import ones, zeros, r_
+from numpy import zeros, r_, linspace, array
 
 from pypower.idx_cost import MODEL, COST, NCOST, PW_LINEAR
 
@@ -21,28 +21,24 @@ def poly2pwl(polycost, Pmin, Pmax, npts):
     C{P} really means C{Q}) it just uses C{npts} evenly spaced points between
     C{Pmin} and C{Pmax}.
     """
-    pwlcost = polycost
     ## size of piece being changed
     m, n = polycost.shape
+    pwlcost = zeros((m, max(n, COST + 2 * npts)))
+    pwlcost[:, :n] = polycost
     ## change cost model
-    pwlcost[:, MODEL]  = PW_LINEAR * ones(m)
+    pwlcost[:, MODEL]  = PW_LINEAR
     ## zero out old data
-    pwlcost[:, COST:COST + n] = zeros(pwlcost[:, COST:COST + n].shape)
+    pwlcost[:, COST:]  = 0
     ## change number of data points
-    pwlcost[:, NCOST]  = npts * ones(m)
+    pwlcost[:, NCOST]  = npts
 
     for i in range(m):
-        if Pmin[i] == 0:
-            step = (Pmax[i] - Pmin[i]) / (npts - 1)
-            xx = range(Pmin[i], step, Pmax[i])
-        elif Pmin[i] > 0:
-            step = (Pmax[i] - Pmin[i]) / (npts - 2)
-            xx = r_[0, range(Pmin[i], step, Pmax[i])]
-        elif Pmin[i] < 0 & Pmax[i] > 0:        ## for when P really means Q
-            step = (Pmax[i] - Pmin[i]) / (npts - 1)
-            xx = range(Pmin[i], step, Pmax[i])
-        yy = totcost(polycost[i, :], xx)
-        pwlcost[i,      COST:2:(COST + 2*(npts-1)    )] = xx
-        pwlcost[i,  (COST+1):2:(COST + 2*(npts-1) + 1)] = yy
+        if Pmin[i] > 0:
+            xx = r_[0, linspace(Pmin[i], Pmax[i], npts - 1)]
+        else:                   ## includes when P really means Q
+            xx = linspace(Pmin[i], Pmax[i], npts)
+        yy = array([totcost(polycost[i:i + 1, :], array([x]))[0] for x in xx])
+        pwlcost[i,     COST:(COST + 2 * npts):2] = xx
+        pwlcost[i, (COST + 1):(COST + 2 * npts):2] = yy
 
     return pwlcost
-- 
2.43.0


From d51b106f4750289c77b57b2308c83258c684f5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:03 +0000
Subject: [PATCH 017/107] fix: polycost of no rows is an empty vector

---
 pypower/polycost.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/polycost.py b/pypower/polycost.py
index fd57359..bb2ee83 100644
--- a/pypower/polycost.py
+++ b/pypower/polycost.py
@@ -30,7 +30,7 @@ def polycost(gencost, Pg, der=0):
     """
     if gencost.size == 0:
         #User has a purely linear piecewise problem, exit early with empty array
-        return []
+        return zeros(0)
 
     if any(gencost[:, MODEL] == PW_LINEAR):
         sys.stderr.write('polycost: all costs must be polynomial\n')
-- 
2.43.0


From 3a33f5e8b6fa3908878e03f19a8f81401691a4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:03 +0000
Subject: [PATCH 018/107] fix: OPF Hessians accept reactive power costs

---
 pypower/opf_costfcn.py | 2 +-
 pypower/opf_hessfcn.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/opf_costfcn.py b/pypower/opf_costfcn.py
index 25f66b5..27135f6 100644
--- a/pypower/opf_costfcn.py
+++ b/pypower/opf_costfcn.py
@@ -152,7 +152,7 @@ def opf_costfcn(x, om, return_hessian=False):
     ipolp = find(pcost[:, MODEL] == POLYNOMIAL)
     d2f_dPg2[ipolp] = \
             baseMVA**2 * polycost(pcost[ipolp, :], Pg[ipolp]*baseMVA, 2)
-    if any(qcost):          ## Qg is not free
+    if len(qcost) > 0:          ## Qg is not free
         ipolq = find(qcost[:, MODEL] == POLYNOMIAL)
         d2f_dQg2[ipolq] = \
                 baseMVA**2 * polycost(qcost[ipolq, :], Qg[ipolq] * baseMVA, 2)
diff --git a/pypower/opf_hessfcn.py b/pypower/opf_hessfcn.py
index c0e9ba2..3a3caa0 100644
--- a/pypower/opf_hessfcn.py
+++ b/pypower/opf_hessfcn.py
@@ -103,7 +103,7 @@ def opf_hessfcn(x, lmbda, om, Ybus, Yf, Yt, ppopt, il=None, cost_mult=1.0):
     ipolp = find(pcost[:, MODEL] == POLYNOMIAL)
     d2f_dPg2[ipolp] = \
             baseMVA**2 * polycost(pcost[ipolp, :], Pg[ipolp] * baseMVA, 2)
-    if any(qcost):          ## Qg is not free
+    if len(qcost) > 0:          ## Qg is not free
         ipolq = find(qcost[:, MODEL] == POLYNOMIAL)
         d2f_dQg2[ipolq] = \
                 baseMVA**2 * polycost(qcost[ipolq, :], Qg[ipolq] * baseMVA, 2)
-- 
2.43.0


From 1fbce93bf31b9fdff722a19da575ff6a2a5700a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:10 +0000
Subject: [PATCH 019/107] fix: opf_costfcn Hessian includes all reactive power
 costs

---
 pypower/opf_costfcn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/opf_costfcn.py b/pypower/opf_costfcn.py
index 27135f6..38e4b2b 100644
--- a/pypower/opf_costfcn.py
+++ b/pypower/opf_costfcn.py
@@ -142,7 +142,7 @@ def opf_costfcn(x, om, return_hessian=False):
     ## ---- evaluate cost Hessian -----
     pcost = gencost[range(ng), :]
     if gencost.shape[0] > ng:
-        qcost = gencost[ng + 1:2 * ng, :]
+        qcost = gencost[ng:2 * ng, :]
     else:
         qcost = array([])
 
-- 
2.43.0


From 06f361233309592daaa8232464999ad483851180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:41 +0000
Subject: [PATCH 020/107] fix: opf_hessfcn works without flow limits

---
 pypower/opf_hessfcn.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pypower/opf_hessfcn.py b/pypower/opf_hessfcn.py
index 3a3caa0..41cc5c3 100644
--- a/pypower/opf_hessfcn.py
+++ b/pypower/opf_hessfcn.py
@@ -164,6 +164,8 @@ def opf_hessfcn(x, lmbda, om, Ybus, Yf, Yt, ppopt, il=None, cost_mult=1.0):
     nmu = int(len(lmbda["ineqnonlin"]) / 2)
     muF = lmbda["ineqnonlin"][:nmu]
     muT = lmbda["ineqnonlin"][nmu:nmu + nmu]
+    if nl2 == 0:                ## no constrained lines
+        return d2f + d2G
     if ppopt['OPF_FLOW_LIM'] == 2:       ## current
         dIf_dVa, dIf_dVm, dIt_dVa, dIt_dVm, If, It = dIbr_dV(branch, Yf, Yt, V)
         Hfaa, Hfav, Hfva, Hfvv = d2AIbr_dV2(dIf_dVa, dIf_dVm, If, Yf, V, muF)
-- 
2.43.0


From 65c1874d94dc8bc8e12e536c6b1de7fbc43351e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:39 +0000
Subject: [PATCH 021/107] fix: pips leaves the caller's options dictionary
 alone

---
 pypower/pips.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/pips.py b/pypower/pips.py
index a94c5c8..693eb80 100644
--- a/pypower/pips.py
+++ b/pypower/pips.py
@@ -197,7 +197,7 @@ def pips(f_fcn, x0=None, A=None, l=None, u=None, xmin=None, xmax=None,
     else:
         nonlinear = True
 
-    if opt is None: opt = {}
+    opt = {} if opt is None else dict(opt)
     # options
     if "feastol" not in opt:
         opt["feastol"] = 1e-06
-- 
2.43.0


From c733162d235a2a6cf0f883249cd913cfb4563097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:48 +0000
Subject: [PATCH 022/107] fix: an OPF without branch flow limits has no
 inequality constraints

---
 pypower/opf_consfcn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/opf_consfcn.py b/pypower/opf_consfcn.py
index a146462..8aa20bd 100644
--- a/pypower/opf_consfcn.py
+++ b/pypower/opf_consfcn.py
@@ -120,7 +120,7 @@ def opf_consfcn(x, om, Ybus, Yf, Yt, ppopt, il=None, *args):
                 h = r_[ Sf * conj(Sf) - flow_max, ## branch S limits (from bus)
                         St * conj(St) - flow_max ].real  ## branch S limits (to bus)
     else:
-        h = zeros((0,1))
+        h = zeros(0)
 
     ##----- evaluate partials of constraints -----
     ## index ranges
-- 
2.43.0


From 50f59aa01e39a763b997d2bdc32fa187d95c9712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:52 +0000
Subject: [PATCH 023/107] fix: qps_pips accepts every documented problem form
 and keeps its input

---
 pypower/qps_pips.py | 39 ++++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/pypower/qps_pips.py b/pypower/qps_pips.py
index 4c90520..3efbadc 100644
--- a/pypower/qps_pips.py
+++ b/pypower/qps_pips.py
@@ -126,7 +126,7 @@ def qps_pips(H, c, A, l, u, xmin=None, xmax=None, x0=None, opt=None):
     @author: Ray Zimmerman (PSERC Cornell)
     """
     if isinstance(H, dict):
-        p = H
+        p = dict(H)
     else:
         p = {'H': H, 'c': c, 'A': A, 'l': l, 'u': u}
         if xmin is not None: p['xmin'] = xmin
@@ -134,31 +134,28 @@ def qps_pips(H, c, A, l, u, xmin=None, xmax=None, x0=None, opt=None):
         if x0 is not None: p['x0'] = x0
         if opt is not None: p['opt'] = opt
 
-    if 'H' not in p or p['H'] == None:#p['H'].nnz == 0:
-        if p['A'] is None or p['A'].nnz == 0 and \
-           'xmin' not in p and \
-           'xmax' not in p:
-#           'xmin' not in p or len(p['xmin']) == 0 and \
-#           'xmax' not in p or len(p['xmax']) == 0:
-            print('qps_pips: LP problem must include constraints or variable bounds')
-            return
+    for k in ('H', 'c', 'A', 'l', 'u', 'xmin', 'xmax', 'x0'):
+        p.setdefault(k, None)
+
+    if p['H'] is None:
+        if p['A'] is not None:
+            nx = p['A'].shape[1]
+        elif p['xmin'] is not None and len(p['xmin']) > 0:
+            nx = len(p['xmin'])
+        elif p['xmax'] is not None and len(p['xmax']) > 0:
+            nx = len(p['xmax'])
         else:
-            if p['A'] is not None and p['A'].nnz >= 0:
-                nx = p['A'].shape[1]
-            elif 'xmin' in p and len(p['xmin']) > 0:
-                nx = p['xmin'].shape[0]
-            elif 'xmax' in p and len(p['xmax']) > 0:
-                nx = p['xmax'].shape[0]
+            raise ValueError('qps_pips: LP problem must include constraints '
+                             'or variable bounds')
         p['H'] = sparse((nx, nx))
     else:
+        p['H'] = sparse(p['H'])
         nx = p['H'].shape[0]
 
-    p['xmin'] = -inf * ones(nx) if 'xmin' not in p else p['xmin']
-    p['xmax'] =  inf * ones(nx) if 'xmax' not in p else p['xmax']
-
-    p['c'] = zeros(nx) if p['c'] is None else p['c']
-
-    p['x0'] = zeros(nx) if 'x0' not in p else p['x0']
+    if p['xmin'] is None: p['xmin'] = -inf * ones(nx)
+    if p['xmax'] is None: p['xmax'] =  inf * ones(nx)
+    if p['c'] is None: p['c'] = zeros(nx)
+    if p['x0'] is None: p['x0'] = zeros(nx)
 
     def qp_f(x, return_hessian=False):
         f = 0.5 * dot(x * p['H'], x) + dot(p['c'], x)
-- 
2.43.0


From 14bb97616c6824b6db4f07a21ebbdec6a3817223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:02 +0000
Subject: [PATCH 024/107] fix: qps_pypower rejects invalid algorithm codes and
 keeps its options

---
 pypower/qps_pypower.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pypower/qps_pypower.py b/pypower/qps_pypower.py
index 8ece5e7..41ed23e 100644
--- a/pypower/qps_pypower.py
+++ b/pypower/qps_pypower.py
@@ -5,8 +5,6 @@
 """Quadratic Program Solver for PYPOWER.
 """
 
-import sys
-
 from pypower.qps_pips import qps_pips
 from pypower.qps_ipopt import qps_ipopt
 from pypower.qps_cplex import qps_cplex
@@ -168,11 +166,11 @@ def qps_pypower(H, c=None, A=None, l=None, u=None, xmin=None, xmax=None,
     if alg == 200 or alg == 250:    ## use MIPS or sc-MIPS
         ## set up options
         if 'pips_opt' in opt:
-            pips_opt = opt['pips_opt']
+            pips_opt = dict(opt['pips_opt'])
         else:
             pips_opt = {}
 
-        if 'max_it' in opt:
+        if opt.get('max_it'):       ## 0 = use algorithm default
             pips_opt['max_it'] = opt['max_it']
 
         if alg == 200:
@@ -194,11 +192,11 @@ def qps_pypower(H, c=None, A=None, l=None, u=None, xmin=None, xmax=None,
     elif alg == 600:                    ## use MOSEK
         x, f, eflag, output, lmbda = \
             qps_mosek(H, c, A, l, u, xmin, xmax, x0, opt)
-    elif 700:                           ## use Gurobi
+    elif alg == 700:                      ## use Gurobi
         x, f, eflag, output, lmbda = \
             qps_gurobi(H, c, A, l, u, xmin, xmax, x0, opt)
     else:
-        sys.stderr.write('qps_pypower: %d is not a valid algorithm code\n', alg)
+        raise ValueError('qps_pypower: %s is not a valid algorithm code' % alg)
 
     if 'alg' not in output:
         output['alg'] = alg
-- 
2.43.0


From b0b927d05a765051f3710cc59948fcdd6b593205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:06 +0000
Subject: [PATCH 025/107] fix: qps_pypower solves an LP given as a problem dict

---
 pypower/qps_pypower.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/qps_pypower.py b/pypower/qps_pypower.py
index 41ed23e..4636f77 100644
--- a/pypower/qps_pypower.py
+++ b/pypower/qps_pypower.py
@@ -125,7 +125,7 @@ def qps_pypower(H, c=None, A=None, l=None, u=None, xmin=None, xmax=None,
         if 'l' in p: l = p['l']
         if 'A' in p: A = p['A']
         if 'c' in p: c = p['c']
-        if 'H' in p: H = p['H']
+        H = p['H'] if 'H' in p else None
     else:                         ## individual args
 #        assert H is not None  zero dimensional sparse matrices not supported
         assert c is not None
-- 
2.43.0


From c9dbe0ad8594fc1bf2c543d5c19b0ec9c4cd2edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:32 +0000
Subject: [PATCH 026/107] fix: piecewise linear costs of reactive power refer
 to their own unit

---
 pypower/makeAy.py    | 2 +-
 pypower/opf_setup.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/makeAy.py b/pypower/makeAy.py
index cf71717..19ffa13 100644
--- a/pypower/makeAy.py
+++ b/pypower/makeAy.py
@@ -73,7 +73,7 @@ def makeAy(baseMVA, ng, gencost, pgbas, qgbas, ybas):
             print(f'makeAy: bad x axis data in row {i} of gencost matrix')
         b = m * p[:ns - 1] - c[:ns - 1]        ## and rhs
         by = r_[by,  b]
-        if i > ng:
+        if i >= ng:
             sidx = qgbas + (i - ng) - 1        ## this was for a q cost
         else:
             sidx = pgbas + i - 1               ## this was for a p cost
diff --git a/pypower/opf_setup.py b/pypower/opf_setup.py
index ca37b7b..07e945b 100644
--- a/pypower/opf_setup.py
+++ b/pypower/opf_setup.py
@@ -155,7 +155,7 @@ def opf_setup(ppc, ppopt):
         ## more problem dimensions
         nv    = nb           ## number of voltage magnitude vars
         nq    = ng           ## number of Qg vars
-        q1    = ng           ## index of 1st Qg column in Ay
+        q1    = 1 + ng       ## index of 1st Qg column in Ay
 
         ## dispatchable load, constant power factor constraints
         Avl, lvl, uvl, _  = makeAvl(baseMVA, gen)
-- 
2.43.0


From 1cc277c2b68661025b8d96d0d16b20faafe6f0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:00 +0000
Subject: [PATCH 027/107] fix: update_mupq with curves on one side only

---
 pypower/makeApq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/makeApq.py b/pypower/makeApq.py
index eb90a78..d91e8ff 100644
--- a/pypower/makeApq.py
+++ b/pypower/makeApq.py
@@ -67,7 +67,7 @@ def makeApq(baseMVA, gen):
                       (npqh, 2*ng))
         ubpqh = ubpqh / baseMVA
     else:
-        data["h"] = array([])
+        data["h"] = zeros((0, 2))
         Apqh  = zeros((0, 2*ng))
         ubpqh = array([])
 
@@ -86,7 +86,7 @@ def makeApq(baseMVA, gen):
                       (npql, 2*ng))
         ubpql = ubpql / baseMVA
     else:
-        data["l"] = array([])
+        data["l"] = zeros((0, 2))
         Apql  = zeros((0, 2*ng))
         ubpql = array([])
 
-- 
2.43.0


From 4ed9eed080c25eee24b47901d58c0f780489f7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:13 +0000
Subject: [PATCH 028/107] fix: clear reactive limit prices of units out of
 service in OPF results

---
 pypower/opf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/opf.py b/pypower/opf.py
index e4685e4..814b89f 100644
--- a/pypower/opf.py
+++ b/pypower/opf.py
@@ -10,7 +10,7 @@ from time import time
 from numpy import zeros, c_, shape, ix_
 
 from pypower.idx_bus import MU_VMIN
-from pypower.idx_gen import PG, QG, MU_QMIN, MU_PMAX, MU_PMIN
+from pypower.idx_gen import PG, QG, MU_QMAX, MU_QMIN, MU_PMAX, MU_PMIN
 from pypower.idx_brch import PF, QF, PT, QT, MU_SF, MU_ST, MU_ANGMIN, MU_ANGMAX
 
 from pypower.ext2int import ext2int
@@ -176,7 +176,7 @@ def opf(*args):
 
     ## zero out result fields of out-of-service gens & branches
     if len(results['order']['gen']['status']['off']) > 0:
-        results['gen'][ ix_(results['order']['gen']['status']['off'], [PG, QG, MU_PMAX, MU_PMIN]) ] = 0
+        results['gen'][ ix_(results['order']['gen']['status']['off'], [PG, QG, MU_PMAX, MU_PMIN, MU_QMAX, MU_QMIN]) ] = 0
 
     if len(results['order']['branch']['status']['off']) > 0:
         results['branch'][ ix_(results['order']['branch']['status']['off'], [PF, QF, PT, QT, MU_SF, MU_ST, MU_ANGMIN, MU_ANGMAX]) ] = 0
-- 
2.43.0


From bf2ce653d3e016db207a597c4805e857e5d90c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:24 +0000
Subject: [PATCH 029/107] fix: clear stale angle limit prices in OPF results

---
 pypower/opf_execute.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pypower/opf_execute.py b/pypower/opf_execute.py
index 8196512..23e2afc 100644
--- a/pypower/opf_execute.py
+++ b/pypower/opf_execute.py
@@ -132,6 +132,7 @@ def opf_execute(om, ppopt):
             del results['g']
 
         ## angle limit constraint multipliers
+        results['branch'][:, [MU_ANGMIN, MU_ANGMAX]] = 0
         if ll['N']['ang'] > 0:
             iang = om.userdata('iang')
             results['branch'][iang, MU_ANGMIN] = results['mu']['lin']['l'][ll['i1']['ang']:ll['iN']['ang']] * pi / 180
-- 
2.43.0


From 1fba692bc43bb5715624b11611e1ff0fe37c5f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:34 +0000
Subject: [PATCH 030/107] fix: keep constant polynomial costs in the DC OPF
 objective

---
 pypower/dcopf_solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pypower/dcopf_solver.py b/pypower/dcopf_solver.py
index b3bc303..4cf82ec 100644
--- a/pypower/dcopf_solver.py
+++ b/pypower/dcopf_solver.py
@@ -138,11 +138,13 @@ def dcopf_solver(om, ppopt, out_opt=None):
                      'than quadratic order.\n')
     iqdr = find(gencost[ipol, NCOST] == 3)
     ilin = find(gencost[ipol, NCOST] == 2)
+    icon = find(gencost[ipol, NCOST] == 1)
     polycf = zeros((npol, 3))         ## quadratic coeffs for Pg
     if len(iqdr) > 0:
         polycf[iqdr, :] = gencost[ipol[iqdr], COST:COST + 3]
     if npol:
         polycf[ilin, 1:3] = gencost[ipol[ilin], COST:COST + 2]
+        polycf[icon, 2] = gencost[ipol[icon], COST]
     polycf = dot(polycf, diag([ baseMVA**2, baseMVA, 1]))     ## convert to p.u.
     if npol:
         Npol = sparse((ones(npol), (arange(npol), vv["i1"]["Pg"] + ipol)),
-- 
2.43.0


From c2537c012021f15b6bc579d4e4597f2a54b4a5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:44 +0000
Subject: [PATCH 031/107] fix: constant term of shifted user costs in the DC
 OPF objective

---
 pypower/dcopf_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/dcopf_solver.py b/pypower/dcopf_solver.py
index 4cf82ec..b37d55a 100644
--- a/pypower/dcopf_solver.py
+++ b/pypower/dcopf_solver.py
@@ -181,7 +181,7 @@ def dcopf_solver(om, ppopt, out_opt=None):
     MN = M * NN
     HH = MN.T * HHw * MN
     CC = MN.T * (CCw - HMR)
-    C0 = 0.5 * dot(MR, HMR) + sum(polycf[:, 2])  # Constant term of cost.
+    C0 = 0.5 * dot(MR, HMR) - dot(CCw, MR) + sum(polycf[:, 2])  # Constant term of cost.
 
     ## set up input for QP solver
     opt = {'alg': alg, 'verbose': verbose}
-- 
2.43.0


From 057b1283aa02ca43d7f08873e7a5ef8ea3c64079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:35 +0000
Subject: [PATCH 032/107] fix: general user costs without H

---
 pypower/opf_args.py  | 2 +-
 pypower/opf_setup.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pypower/opf_args.py b/pypower/opf_args.py
index fa4788a..8292712 100644
--- a/pypower/opf_args.py
+++ b/pypower/opf_args.py
@@ -316,7 +316,7 @@ def opf_args(*args):
         if not issparse(N):
             stderr.write('opf_args.m: N must be sparse in generalized cost '
                          'parameters\n')
-        if not issparse(H):
+        if (H is not None) and not issparse(H):
             stderr.write('opf_args.m: H must be sparse in generalized cost parameters\n')
 
     if Au is not None and not issparse(Au):
diff --git a/pypower/opf_setup.py b/pypower/opf_setup.py
index 07e945b..dc0d7ed 100644
--- a/pypower/opf_setup.py
+++ b/pypower/opf_setup.py
@@ -254,8 +254,8 @@ def opf_setup(ppc, ppopt):
             user_cost['kk'] = fparm[:, 2]
             user_cost['mm'] = fparm[:, 3]
 
-#        if len(H) > 0:
-        user_cost['H'] = H
+        if H is not None:
+            user_cost['H'] = H
 
         om.add_costs('usr', user_cost, user_vars)
 
-- 
2.43.0


From f6cf463221b6e6f29d3e64e59c565ce32c87b397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:56 +0000
Subject: [PATCH 033/107] fix: a refused userfcn registration leaves the
 registry alone

---
 pypower/add_userfcn.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pypower/add_userfcn.py b/pypower/add_userfcn.py
index 0c6ad70..aa2352e 100644
--- a/pypower/add_userfcn.py
+++ b/pypower/add_userfcn.py
@@ -92,6 +92,7 @@ def add_userfcn(ppc, stage, fcn, args=None, allow_multiple=False):
 
     if stage not in ['ext2int', 'formulation', 'int2ext', 'printpf', 'savecase']:
         stderr.write('add_userfcn : \'%s\' is not the name of a valid callback stage\n' % stage)
+        return ppc
 
     n = 0
     if 'userfcn' in ppc:
@@ -101,6 +102,7 @@ def add_userfcn(ppc, stage, fcn, args=None, allow_multiple=False):
                 for k in range(n):
                     if ppc['userfcn'][stage][k]['fcn'] == fcn:
                         stderr.write('add_userfcn: the function \'%s\' has already been added\n' % fcn.__name__)
+                        return ppc
         else:
             ppc['userfcn'][stage] = []
     else:
-- 
2.43.0


From 2e91ab3a65188689da0f370bf10c6dbe5cdd03b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:08 +0000
Subject: [PATCH 034/107] fix: accept any value as userfcn argument

---
 pypower/add_userfcn.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pypower/add_userfcn.py b/pypower/add_userfcn.py
index aa2352e..a225502 100644
--- a/pypower/add_userfcn.py
+++ b/pypower/add_userfcn.py
@@ -87,9 +87,6 @@ def add_userfcn(ppc, stage, fcn, args=None, allow_multiple=False):
 
     @author: Ray Zimmerman (PSERC Cornell)
     """
-    if args is None:
-        args = []
-
     if stage not in ['ext2int', 'formulation', 'int2ext', 'printpf', 'savecase']:
         stderr.write('add_userfcn : \'%s\' is not the name of a valid callback stage\n' % stage)
         return ppc
@@ -109,7 +106,7 @@ def add_userfcn(ppc, stage, fcn, args=None, allow_multiple=False):
         ppc['userfcn'] = {stage: []}
 
     ppc['userfcn'][stage].append({'fcn': fcn})
-    if len(args) > 0:
+    if args is not None:
         ppc['userfcn'][stage][n]['args'] = args
 
     return ppc
-- 
2.43.0


From 60927875810be7afafcc62aa1f41a84d9ea7fcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:19 +0000
Subject: [PATCH 035/107] fix: removing a userfcn from an empty stage is a
 no-op

---
 pypower/remove_userfcn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pypower/remove_userfcn.py b/pypower/remove_userfcn.py
index e9146ec..fced2fd 100644
--- a/pypower/remove_userfcn.py
+++ b/pypower/remove_userfcn.py
@@ -18,6 +18,9 @@ def remove_userfcn(ppc, stage, fcn):
 
     @author: Ray Zimmerman (PSERC Cornell)
     """
+    if 'userfcn' not in ppc or stage not in ppc['userfcn']:
+        return ppc
+
     n = len(ppc['userfcn'][stage])
 
     for k in range(n - 1, -1, -1):
-- 
2.43.0


From ba348e3c2a871f9c7423030da0ba20a3f8764f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:30 +0000
Subject: [PATCH 036/107] fix: use the result of the formulation callbacks

---
 pypower/opf_setup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/opf_setup.py b/pypower/opf_setup.py
index dc0d7ed..cd949db 100644
--- a/pypower/opf_setup.py
+++ b/pypower/opf_setup.py
@@ -260,6 +260,6 @@ def opf_setup(ppc, ppopt):
         om.add_costs('usr', user_cost, user_vars)
 
     ## execute userfcn callbacks for 'formulation' stage
-    run_userfcn(userfcn, 'formulation', om)
+    om = run_userfcn(userfcn, 'formulation', om)
 
     return om
-- 
2.43.0


From c6d1c45a24d6b61f6e3014f3571888b859fb6e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:41 +0000
Subject: [PATCH 037/107] fix: set OUT_ALL_LIM by keyword for printpf callbacks

---
 pypower/printpf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/printpf.py b/pypower/printpf.py
index 5464b53..8556465 100644
--- a/pypower/printpf.py
+++ b/pypower/printpf.py
@@ -685,5 +685,5 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
     ## execute userfcn callbacks for 'printpf' stage
     if have_results_struct and 'userfcn' in results:
         if not isOPF:  ## turn off option for all constraints if it isn't an OPF
-            ppopt = ppoption(ppopt, 'OUT_ALL_LIM', 0)
+            ppopt = ppoption(ppopt, OUT_ALL_LIM=0)
         run_userfcn(results["userfcn"], 'printpf', results, fd, ppopt)
-- 
2.43.0


From a6758aaac2af5f11acb610481a669d34860be04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:11 +0000
Subject: [PATCH 038/107] fix: print the limits of dispatchable loads

---
 pypower/printpf.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pypower/printpf.py b/pypower/printpf.py
index 8556465..406b634 100644
--- a/pypower/printpf.py
+++ b/pypower/printpf.py
@@ -594,9 +594,9 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
                     else:
                         fd.write('     -  ')
                     if gen[i, PG]:
-                        fd.write('%10.2f%10.2f%10.2f' % gen[i, [PMIN, PG, PMAX]])
+                        fd.write('%10.2f%10.2f%10.2f' % tuple(gen[i, [PMIN, PG, PMAX]]))
                     else:
-                        fd.write('%10.2f       -  %10.2f' % gen[i, [PMIN, PMAX]])
+                        fd.write('%10.2f       -  %10.2f' % tuple(gen[i, [PMIN, PMAX]]))
 
                     if (gen[i, PG] > gen[i, PMAX] - ctol) | (gen[i, MU_PMAX] > ptol):
                         fd.write('%9.3f' % gen[i, MU_PMAX])
@@ -620,16 +620,16 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
                              (gen[i, QG] > gen[i, QMAX] - ctol) |
                              (gen[i, MU_QMIN] > ptol) |
                              (gen[i, MU_QMAX] > ptol))):
-                    fd.write('\n%3d%5d' % (i, gen(i, GEN_BUS)))
+                    fd.write('\n%3d%5d' % (i, gen[i, GEN_BUS]))
                     if (gen[i, QG] < gen[i, QMIN] + ctol) | (gen[i, MU_QMIN] > ptol):
                         fd.write('%8.3f' % gen[i, MU_QMIN])
                     else:
                         fd.write('     -  ')
 
                     if gen[i, QG]:
-                        fd.write('%10.2f%10.2f%10.2f' % gen[i, [QMIN, QG, QMAX]])
+                        fd.write('%10.2f%10.2f%10.2f' % tuple(gen[i, [QMIN, QG, QMAX]]))
                     else:
-                        fd.write('%10.2f       -  %10.2f' % gen[i, [QMIN, QMAX]])
+                        fd.write('%10.2f       -  %10.2f' % tuple(gen[i, [QMIN, QMAX]]))
 
                     if (gen[i, QG] > gen[i, QMAX] - ctol) | (gen[i, MU_QMAX] > ptol):
                         fd.write('%9.3f' % gen[i, MU_QMAX])
-- 
2.43.0


From d93386710b4442958b67c11288320c2722d3e9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:22 +0000
Subject: [PATCH 039/107] fix: list binding voltage limits in the report

---
 pypower/printpf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/printpf.py b/pypower/printpf.py
index 406b634..c501999 100644
--- a/pypower/printpf.py
+++ b/pypower/printpf.py
@@ -454,7 +454,7 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
     if isOPF:
         ctol = ppopt['OPF_VIOLATION']   ## constraint violation tolerance
         ## voltage constraints
-        if (not isDC) & (OUT_V_LIM == 2 | (OUT_V_LIM == 1 &
+        if (not isDC) & ((OUT_V_LIM == 2) | ((OUT_V_LIM == 1) &
                              (any(bus[:, VM] < bus[:, VMIN] + ctol) |
                               any(bus[:, VM] > bus[:, VMAX] - ctol) |
                               any(bus[:, MU_VMIN] > ptol) |
@@ -465,7 +465,7 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
             fd.write('\nBus #  Vmin mu    Vmin    |V|   Vmax    Vmax mu')
             fd.write('\n-----  --------   -----  -----  -----   --------')
             for i in range(nb):
-                if (OUT_V_LIM == 2) | (OUT_V_LIM == 1 &
+                if (OUT_V_LIM == 2) | ((OUT_V_LIM == 1) &
                              ((bus[i, VM] < bus[i, VMIN] + ctol) |
                               (bus[i, VM] > bus[i, VMAX] - ctol) |
                               (bus[i, MU_VMIN] > ptol) |
-- 
2.43.0


From b3e18792d9dd83da5a8f711b8615c7ca51d82d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:33 +0000
Subject: [PATCH 040/107] fix: list every area of the report once

---
 pypower/printpf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/printpf.py b/pypower/printpf.py
index c501999..aa93dc6 100644
--- a/pypower/printpf.py
+++ b/pypower/printpf.py
@@ -151,7 +151,7 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
     nzld = find((bus[:, PD] != 0.0) | (bus[:, QD] != 0.0))
     sorted_areas = sort(bus[:, BUS_AREA])
     ## area numbers
-    s_areas = sorted_areas[r_[1, find(diff(sorted_areas)) + 1]]
+    s_areas = sorted_areas[r_[0, find(diff(sorted_areas)) + 1]]
     nzsh = find((bus[:, GS] != 0.0) | (bus[:, BS] != 0.0))
     allg = find( ~isload(gen) )
     ong  = find( (gen[:, GEN_STATUS] > 0) & ~isload(gen) )
-- 
2.43.0


From 2b6ddbdb352a0a5aa40fb628d4de2c94e8a0e5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:43 +0000
Subject: [PATCH 041/107] fix: printing DC results does not modify them

---
 pypower/printpf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pypower/printpf.py b/pypower/printpf.py
index aa93dc6..7f79415 100644
--- a/pypower/printpf.py
+++ b/pypower/printpf.py
@@ -136,6 +136,7 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
 
     ## zero out some data to make printout consistent for DC case
     if isDC:
+        bus, gen, branch = bus.copy(), gen.copy(), branch.copy()
         bus[:, r_[QD, BS]]          = zeros((nb, 2))
         gen[:, r_[QG, QMAX, QMIN]]  = zeros((ng, 3))
         branch[:, r_[BR_R, BR_B]]   = zeros((nl, 2))
-- 
2.43.0


From 52eadc3935987661103bbebf94bd62b05875739e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:53 +0000
Subject: [PATCH 042/107] fix: print to stdout by default whether or not
 options are given

---
 pypower/printpf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/printpf.py b/pypower/printpf.py
index 7f79415..2155c60 100644
--- a/pypower/printpf.py
+++ b/pypower/printpf.py
@@ -82,8 +82,8 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
         have_results_struct = 0
         if ppopt is None:
             ppopt = ppoption()   ## use default options
-            if fd is None:
-                fd = stdout         ## print to stdout by default
+        if fd is None:
+            fd = stdout         ## print to stdout by default
         if ppopt['OUT_ALL'] == 0:
             return     ## nothin' to see here, bail out now
 
-- 
2.43.0


From aa7625b8f827473990d8b9ed7fdb024b3a42ec37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:02 +0000
Subject: [PATCH 043/107] fix: no reactive limits of dispatchable loads in DC
 reports

---
 pypower/printpf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pypower/printpf.py b/pypower/printpf.py
index 2155c60..47f9598 100644
--- a/pypower/printpf.py
+++ b/pypower/printpf.py
@@ -562,15 +562,16 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
             fd.write('\n')
 
         ## dispatchable load P constraints
-        if (OUT_PG_LIM == 2) | (OUT_QG_LIM == 2) | \
+        if (OUT_PG_LIM == 2) | \
                 ((OUT_PG_LIM == 1) & (any(gen[onld, PG] < gen[onld, PMIN] + ctol) |
                                       any(gen[onld, PG] > gen[onld, PMAX] - ctol) |
                                       any(gen[onld, MU_PMIN] > ptol) |
                                       any(gen[onld, MU_PMAX] > ptol))) | \
+                ((not isDC) & ((OUT_QG_LIM == 2) |
                 ((OUT_QG_LIM == 1) & (any(gen[onld, QG] < gen[onld, QMIN] + ctol) |
                                       any(gen[onld, QG] > gen[onld, QMAX] - ctol) |
                                       any(gen[onld, MU_QMIN] > ptol) |
-                                      any(gen[onld, MU_QMAX] > ptol))):
+                                      any(gen[onld, MU_QMAX] > ptol))))):
             fd.write('\n================================================================================')
             fd.write('\n|     Dispatchable Load Constraints                                            |')
             fd.write('\n================================================================================')
-- 
2.43.0


From 951af99dfd00050935404480892d3462ef597962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:38 +0000
Subject: [PATCH 044/107] fix: include the Gurobi options in the options vector

---
 pypower/ppoption.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypower/ppoption.py b/pypower/ppoption.py
index cb9ff87..d97e260 100644
--- a/pypower/ppoption.py
+++ b/pypower/ppoption.py
@@ -211,7 +211,8 @@ def ppoption(ppopt=None, **kw_args):
 
     default_ppopt = {}
 
-    options = PF_OPTIONS + CPF_OPTIONS + OPF_OPTIONS + OUTPUT_OPTIONS + PDIPM_OPTIONS
+    options = PF_OPTIONS + CPF_OPTIONS + OPF_OPTIONS + OUTPUT_OPTIONS + PDIPM_OPTIONS + \
+        GUROBI_OPTIONS
 
     for name, default, _ in options:
         default_ppopt[name.upper()] = default
-- 
2.43.0


From aa3b1c056b89ccd9b8af00d380134227bcd51512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:59 +0000
Subject: [PATCH 045/107] fix: load Python case files in a namespace of their
 own and report errors in them

---
 pypower/loadcase.py | 64 ++++++++++++---------------------------------
 1 file changed, 16 insertions(+), 48 deletions(-)

diff --git a/pypower/loadcase.py b/pypower/loadcase.py
index 84ee92a..4ccfdfb 100644
--- a/pypower/loadcase.py
+++ b/pypower/loadcase.py
@@ -107,58 +107,26 @@ def loadcase(casefile,
                     lasterr = str(e)
             elif extension == '.py':      ## from Python file
                 try:
-                    if PY2:
-                        execfile(rootname + extension)
-                    else:
-                        exec(compile(open(rootname + extension).read(),
-                                     rootname + extension, 'exec'))
-
-                    try:                      ## assume it returns an object
-                        s = eval(fname)()
-                    except ValueError as e:
-                        info = 4
-                        lasterr = str(e)
-                    ## if not try individual data matrices
-                    if info == 0 and not isinstance(s, dict):
-                        s = {}
+                    ## names the file defines stay in a namespace of its own
+                    ns = {'__name__': fname, '__file__': rootname + extension,
+                          'array': array}
+                    with open(rootname + extension) as fd:
+                        exec(compile(fd.read(), rootname + extension, 'exec'), ns)
+                    s = ns[fname]()
+
+                    ## if it does not return a dict, individual data matrices
+                    if not isinstance(s, dict):
+                        names = ['baseMVA', 'bus', 'gen', 'branch',
+                                 'areas', 'gencost']
+                        if len(s) not in [4, 6]:
+                            raise ValueError('expected 4 or 6 data matrices')
+                        s = dict(zip(names, s))
                         s['version'] = '1'
-                        if expect_gencost:
-                            try:
-                                s['baseMVA'], s['bus'], s['gen'], s['branch'], \
-                                s['areas'], s['gencost'] = eval(fname)()
-                            except IOError as e:
-                                info = 4
-                                lasterr = str(e)
-                        else:
-                            if return_as_obj:
-                                try:
-                                    s['baseMVA'], s['bus'], s['gen'], \
-                                        s['branch'], s['areas'], \
-                                        s['gencost'] = eval(fname)()
-                                except ValueError as e:
-                                    try:
-                                        s['baseMVA'], s['bus'], s['gen'], \
-                                            s['branch'] = eval(fname)()
-                                    except ValueError as e:
-                                        info = 4
-                                        lasterr = str(e)
-                            else:
-                                try:
-                                    s['baseMVA'], s['bus'], s['gen'], \
-                                        s['branch'] = eval(fname)()
-                                except ValueError as e:
-                                    info = 4
-                                    lasterr = str(e)
 
-                except IOError as e:
-                    info = 4
+                except Exception as e:
+                    info = 5 if exists(rootname + '.py') else 4
                     lasterr = str(e)
 
-
-                if info == 4 and exists(rootname + '.py'):
-                    info = 5
-                    err5 = lasterr
-
     elif isinstance(casefile, dict):
         s = deepcopy(casefile)
     else:
-- 
2.43.0


From 4fc194b8d4a2d9bd3585fb521c36ff09b3039850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:10 +0000
Subject: [PATCH 046/107] fix: report malformed MAT case files, return scalars
 and vectors as such

---
 pypower/loadcase.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pypower/loadcase.py b/pypower/loadcase.py
index 4ccfdfb..9aec859 100644
--- a/pypower/loadcase.py
+++ b/pypower/loadcase.py
@@ -94,16 +94,21 @@ def loadcase(casefile,
                         for a in val.dtype.names:
                             s[a] = val[a]
                     else:                 ## individual data matrices
-                        d['version'] = '1'
-
-                        s = {}
+                        s = {'version': '1'}
                         for k, v in d.items():
-                            s[k] = v
+                            if not k.startswith('__'):   ## not part of the case
+                                s[k] = v
 
-                    s['baseMVA'] = s['baseMVA'][0]  # convert array to float
+                    ## MAT files know matrices only
+                    s['baseMVA'] = float(s['baseMVA'][0, 0])
+                    if not isinstance(s['version'], basestring):
+                        s['version'] = str(s['version'].item())
+                    for k in ['l', 'u', 'Cw', 'z0', 'zl', 'zu']:
+                        if k in s:
+                            s[k] = s[k].flatten()
 
-                except IOError as e:
-                    info = 3
+                except Exception as e:
+                    info = 5 if exists(rootname + '.mat') else 3
                     lasterr = str(e)
             elif extension == '.py':      ## from Python file
                 try:
-- 
2.43.0


From dd47c84b90d4d8830bc2cf8daa0f69469bf47b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:37 +0000
Subject: [PATCH 047/107] fix: load MAT case files without a version

---
 pypower/loadcase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/loadcase.py b/pypower/loadcase.py
index 9aec859..32f94b0 100644
--- a/pypower/loadcase.py
+++ b/pypower/loadcase.py
@@ -101,8 +101,8 @@ def loadcase(casefile,
 
                     ## MAT files know matrices only
                     s['baseMVA'] = float(s['baseMVA'][0, 0])
-                    if not isinstance(s['version'], basestring):
-                        s['version'] = str(s['version'].item())
+                    if 'version' in s:
+                        s['version'] = str(array(s['version']).item())
                     for k in ['l', 'u', 'Cw', 'z0', 'zl', 'zu']:
                         if k in s:
                             s[k] = s[k].flatten()
-- 
2.43.0


From e20821075c69a6ac294a803cbf48bfd4020d9455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:46 +0000
Subject: [PATCH 048/107] fix: report missing tables and bad arguments by exit
 code in loadcase

---
 pypower/loadcase.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pypower/loadcase.py b/pypower/loadcase.py
index 32f94b0..3389f15 100644
--- a/pypower/loadcase.py
+++ b/pypower/loadcase.py
@@ -58,6 +58,7 @@ def loadcase(casefile,
         expect_areas = False
 
     info = 0
+    lasterr = ''
 
     # read data into case object
     if isinstance(casefile, basestring):
@@ -76,8 +77,6 @@ def loadcase(casefile,
                 info = 2
             fname = basename(rootname)
 
-        lasterr = ''
-
         ## attempt to read file
         if info == 0:
             if extension == '.mat':       ## from MAT file
@@ -140,15 +139,18 @@ def loadcase(casefile,
     # check contents of dict
     if info == 0:
         # check for required keys
-        if (s['baseMVA'] is None or s['bus'] is None \
-            or s['gen'] is None or s['branch'] is None) or \
-            (expect_gencost and s['gencost'] is None) or \
-            (expect_areas and s['areas'] is None):
+        required = ['baseMVA', 'bus', 'gen', 'branch']
+        if expect_gencost:
+            required.append('gencost')
+        if expect_areas:
+            required.append('areas')
+        missing = [k for k in required if s.get(k) is None]
+        if missing:
             info = 5  ## missing some expected fields
-            err5 = 'missing data'
+            lasterr = 'missing data: ' + ', '.join(missing)
         else:
             ## remove empty areas if not needed
-            if hasattr(s, 'areas') and (len(s['areas']) == 0) and (not expect_areas):
+            if 'areas' in s and (len(s['areas']) == 0) and (not expect_areas):
                 del s['areas']
 
             ## all fields present, copy to ppc
-- 
2.43.0


From 646e363beb08fdfd81d29d5fc6f800cdaa896d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:06 +0000
Subject: [PATCH 049/107] fix: respect the version a case states when loading
 it

---
 pypower/loadcase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/loadcase.py b/pypower/loadcase.py
index 3389f15..cf53c1c 100644
--- a/pypower/loadcase.py
+++ b/pypower/loadcase.py
@@ -155,7 +155,7 @@ def loadcase(casefile,
 
             ## all fields present, copy to ppc
             ppc = deepcopy(s)
-            if not hasattr(ppc, 'version'):  ## hmm, struct with no 'version' field
+            if 'version' not in ppc:  ## hmm, struct with no 'version' field
                 if ppc['gen'].shape[1] < 21:    ## version 2 has 21 or 25 cols
                     ppc['version'] = '1'
                 else:
-- 
2.43.0


From 07579aba75f3de7f1b6bd1c16bd57b3864a007ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:15 +0000
Subject: [PATCH 050/107] fix: columns of solved version 1 tables in ppc_1to2

---
 pypower/loadcase.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pypower/loadcase.py b/pypower/loadcase.py
index cf53c1c..2bdfd35 100644
--- a/pypower/loadcase.py
+++ b/pypower/loadcase.py
@@ -212,8 +212,8 @@ def ppc_1to2(gen, branch):
 
     ## add extra columns to gen
     tmp = zeros((gen.shape[0], shift))
-    if gen.shape[1] >= mu_Qmin:
-        gen = c_[ gen[:, 0:PMIN + 1], tmp, gen[:, mu_Pmax:mu_Qmin] ]
+    if gen.shape[1] > mu_Qmin:
+        gen = c_[ gen[:, 0:PMIN + 1], tmp, gen[:, mu_Pmax:mu_Qmin + 1] ]
     else:
         gen = c_[ gen[:, 0:PMIN + 1], tmp ]
 
@@ -226,10 +226,10 @@ def ppc_1to2(gen, branch):
     ## add extra columns to branch
     tmp = ones((branch.shape[0], 1)) * array([-360, 360])
     tmp2 = zeros((branch.shape[0], 2))
-    if branch.shape[1] >= mu_St - 1:
-        branch = c_[ branch[:, 0:BR_STATUS + 1], tmp, branch[:, PF - 1:MU_ST + 1], tmp2 ]
-    elif branch.shape[1] >= QT - 1:
-        branch = c_[ branch[:, 0:BR_STATUS + 1], tmp, branch[:, PF - 1:QT + 1] ]
+    if branch.shape[1] > mu_St:
+        branch = c_[ branch[:, 0:BR_STATUS + 1], tmp, branch[:, Pf:mu_St + 1], tmp2 ]
+    elif branch.shape[1] > Qt:
+        branch = c_[ branch[:, 0:BR_STATUS + 1], tmp, branch[:, Pf:Qt + 1] ]
     else:
         branch = c_[ branch[:, 0:BR_STATUS + 1], tmp ]
 
-- 
2.43.0


From da7506ee0bf694776835ea9038929943c090b1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:24 +0000
Subject: [PATCH 051/107] fix: do not modify the case being saved

---
 pypower/savecase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/savecase.py b/pypower/savecase.py
index f370557..3f13cd0 100644
--- a/pypower/savecase.py
+++ b/pypower/savecase.py
@@ -45,7 +45,7 @@ def savecase(fname, ppc, comment=None, version='2'):
     Autonoma de Manizales)
     @author: Ray Zimmerman (PSERC Cornell)
     """
-    ppc_ver = ppc["version"] = version
+    ppc_ver = version
     baseMVA, bus, gen, branch = \
         ppc["baseMVA"], ppc["bus"], ppc["gen"], ppc["branch"]
     areas = ppc["areas"] if "areas" in ppc else None
-- 
2.43.0


From b70313372c5b5c1931e250975f58cbb3c44e217e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:24 +0000
Subject: [PATCH 052/107] fix: save cost tables with spare columns

---
 pypower/savecase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/savecase.py b/pypower/savecase.py
index 3f13cd0..023514c 100644
--- a/pypower/savecase.py
+++ b/pypower/savecase.py
@@ -283,7 +283,7 @@ def savecase(fname, ppc, comment=None, version='2'):
                     template = template + ', %.9g'
                 template = template + '],\n'
                 for i in range(gencost.shape[0]):
-                    fd.write(template % ((indent2,) + tuple(gencost[i])))
+                    fd.write(template % ((indent2,) + tuple(gencost[i, :n + 4])))
             fd.write('%s])\n' % indent)
 
         ## generalized OPF user data
-- 
2.43.0


From 350db1d236890c27cfaab548fc5615e0beb2ce8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:33 +0000
Subject: [PATCH 053/107] fix: save user constraint, cost and variable data to
 Python files that load

---
 pypower/savecase.py | 104 +++++++++++++++++++-------------------------
 1 file changed, 44 insertions(+), 60 deletions(-)

diff --git a/pypower/savecase.py b/pypower/savecase.py
index 023514c..8cf2835 100644
--- a/pypower/savecase.py
+++ b/pypower/savecase.py
@@ -11,6 +11,7 @@ from os.path import basename
 
 from numpy import array, c_, r_, any
 from scipy.io import savemat
+from scipy.sparse import coo_matrix
 
 from pypower._compat import PY2
 from pypower.run_userfcn import run_userfcn
@@ -157,7 +158,10 @@ def savecase(fname, ppc, comment=None, version='2'):
 #                fd.write('function [baseMVA, bus, gen, branch] = %s\n' % rootname)
 #            prefix = ''
         else:
-            fd.write('def %s():\n' % basename(rootname))
+            fd.write('from numpy import array, inf, nan\n')
+            if has_data(ppc, "A") or has_data(ppc, "N"):
+                fd.write('from scipy.sparse import csr_matrix\n')
+            fd.write('\n\ndef %s():\n' % basename(rootname))
             prefix = 'ppc'
         if comment:
             if isinstance(comment, basestring):
@@ -287,69 +291,37 @@ def savecase(fname, ppc, comment=None, version='2'):
             fd.write('%s])\n' % indent)
 
         ## generalized OPF user data
-        if ("A" in ppc) and (len(ppc["A"]) > 0) or ("N" in ppc) and (len(ppc["N"]) > 0):
+        if has_data(ppc, "A") or has_data(ppc, "N"):
             fd.write('\n%s##-----  Generalized OPF User Data  -----##' % indent)
 
         ## user constraints
-        if ("A" in ppc) and (len(ppc["A"]) > 0):
+        if has_data(ppc, "A"):
             ## A
             fd.write('\n%s## user constraints\n' % indent)
-            print_sparse(fd, prefix + "['A']", ppc["A"])
-            if ("l" in ppc) and (len(ppc["l"]) > 0) and ("u" in ppc) and (len(ppc["u"]) > 0):
-                fd.write('%slu = array([\n' % indent)
-                for i in range(len(ppc["l"])):
-                    fd.write('%s[%.9g, %.9g],\n' % (indent2, ppc["l"][i], ppc["u"][i]))
-                fd.write('%s])\n' % indent)
-                fd.write("%s%s['l'] = lu[:, 0]\n" % (indent, prefix))
-                fd.write("%s%s['u'] = lu[:, 1]\n\n" % (indent, prefix))
-            elif ("l" in ppc) and (len(ppc["l"]) > 0):
-                fd.write("%s%s['l'] = array([\n" % (indent, prefix))
-                for i in range(len(l)):
-                    fd.write('%s[%.9g],\n' % (indent2, ppc["l"][i]))
-                fd.write('%s])\n\n' % indent)
-            elif ("u" in ppc) and (len(ppc["u"]) > 0):
-                fd.write("%s%s['u'] = array([\n" % (indent, prefix))
-                for i in range(len(l)):
-                    fd.write('%s[%.9g],\n' % (indent2, ppc["u"][i]))
-                fd.write('%s])\n\n' % indent)
+            print_sparse(fd, prefix + "['A']", ppc["A"], indent)
+            for key in ["l", "u"]:
+                if has_data(ppc, key):
+                    print_vector(fd, "%s['%s']" % (prefix, key), ppc[key], indent)
 
         ## user costs
-        if ("N" in ppc) and (len(ppc["N"]) > 0):
+        if has_data(ppc, "N"):
             fd.write('\n%s## user costs\n' % indent)
-            print_sparse(fd, prefix + "['N']", ppc["N"])
-            if ("H" in ppc) and (len(ppc["H"]) > 0):
-                print_sparse(fd, prefix + "['H']", ppc["H"])
-            if ("fparm" in ppc) and (len(ppc["fparm"]) > 0):
-                fd.write("%sCw_fparm = array([\n" % indent)
-                for i in range(ppc["Cw"]):
-                    fd.write('%s[%.9g, %d, %.9g, %.9g, %.9g],\n' % ((indent2,) + tuple(ppc["Cw"][i]) + tuple(ppc["fparm"][i, :])))
-                fd.write('%s])\n' % indent)
-                fd.write('%s%s[\'Cw\']    = Cw_fparm[:, 0]\n' % (indent, prefix))
-                fd.write("%s%s['fparm'] = Cw_fparm[:, 1:5]\n" % (indent, prefix))
-            else:
-                fd.write("%s%s['Cw'] = array([\n" % (indent, prefix))
-                for i in range(len(ppc["Cw"])):
-                    fd.write('%s[%.9g],\n' % (indent2, ppc["Cw"][i]))
+            print_sparse(fd, prefix + "['N']", ppc["N"], indent)
+            if has_data(ppc, "H"):
+                print_sparse(fd, prefix + "['H']", ppc["H"], indent)
+            if has_data(ppc, "fparm"):
+                fd.write("%s%s['fparm'] = array([\n" % (indent, prefix))
+                for i in range(len(ppc["fparm"])):
+                    fd.write('%s[%d, %.9g, %.9g, %.9g],\n' % ((indent2,) + tuple(ppc["fparm"][i, :4])))
                 fd.write('%s])\n' % indent)
+            print_vector(fd, "%s['Cw']" % prefix, ppc["Cw"], indent)
 
         ## user vars
         if ('z0' in ppc) or ('zl' in ppc) or ('zu' in ppc):
             fd.write('\n%s## user vars\n' % indent)
-            if ('z0' in ppc) and (len(ppc['z0']) > 0):
-                fd.write('%s%s["z0"] = array([\n' % (indent, prefix))
-                for i in range(len(ppc['z0'])):
-                    fd.write('%s[%.9g],\n' % (indent2, ppc["z0"]))
-                fd.write('%s])\n' % indent)
-            if ('zl' in ppc) and (len(ppc['zl']) > 0):
-                fd.write('%s%s["zl"] = array([\n' % (indent2, prefix))
-                for i in range(len(ppc['zl'])):
-                    fd.write('%s[%.9g],\n' % (indent2, ppc["zl"]))
-                fd.write('%s])\n' % indent)
-            if ('zu' in ppc) and (len(ppc['zu']) > 0):
-                fd.write('%s%s["zu"] = array([\n' % (indent, prefix))
-                for i in range(len(ppc['zu'])):
-                    fd.write('%s[%.9g],\n' % (indent2, ppc["zu"]))
-                fd.write('%s])\n' % indent)
+            for key in ['z0', 'zl', 'zu']:
+                if has_data(ppc, key):
+                    print_vector(fd, "%s['%s']" % (prefix, key), ppc[key], indent)
 
         ## execute userfcn callbacks for 'savecase' stage
         if 'userfcn' in ppc:
@@ -363,17 +335,29 @@ def savecase(fname, ppc, comment=None, version='2'):
     return fname
 
 
-def print_sparse(fd, varname, A):
-    A = A.tocoo()
+def has_data(ppc, key):
+    """Whether C{ppc} has a non-empty array, dense or sparse, for C{key}."""
+    return ppc.get(key) is not None and ppc[key].shape[0] > 0
+
+
+def print_vector(fd, varname, v, indent):
+    fd.write('%s%s = array([\n' % (indent, varname))
+    for x in v:
+        fd.write('%s    %.9g,\n' % (indent, x))
+    fd.write('%s])\n' % indent)
+
+
+def print_sparse(fd, varname, A, indent):
+    A = coo_matrix(A)
     i, j, s = A.row, A.col, A.data
     m, n = A.shape
 
     if len(s) == 0:
-        fd.write('%s = sparse((%d, %d))\n' % (varname, m, n))
+        fd.write('%s%s = csr_matrix((%d, %d))\n' % (indent, varname, m, n))
     else:
-        fd.write('ijs = array([\n')
-    for k in range(len(i)):
-        fd.write('[%d, %d, %.9g],\n' % (i[k], j[k], s[k]))
-
-    fd.write('])\n')
-    fd.write('%s = sparse(ijs[:, 0], ijs[:, 1], ijs[:, 2], %d, %d)\n' % (varname, m, n))
+        fd.write('%sijs = array([\n' % indent)
+        for k in range(len(i)):
+            fd.write('%s    [%d, %d, %.9g],\n' % (indent, i[k], j[k], s[k]))
+        fd.write('%s])\n' % indent)
+        fd.write('%sij = ijs[:, :2].astype(int).T\n' % indent)
+        fd.write('%s%s = csr_matrix((ijs[:, 2], ij), shape=(%d, %d))\n' % (indent, varname, m, n))
-- 
2.43.0


From 2a6b17abc82ff068effd4ba43b0ba7b5b7217b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:07 +0000
Subject: [PATCH 054/107] fix: save sparse user data to MAT files, leave
 callbacks out

---
 pypower/savecase.py | 41 ++++++++++++++++-------------------------
 1 file changed, 16 insertions(+), 25 deletions(-)

diff --git a/pypower/savecase.py b/pypower/savecase.py
index 8cf2835..e04f3d6 100644
--- a/pypower/savecase.py
+++ b/pypower/savecase.py
@@ -9,9 +9,9 @@ from sys import stderr
 
 from os.path import basename
 
-from numpy import array, c_, r_, any
+from numpy import array, shape, c_, r_, any
 from scipy.io import savemat
-from scipy.sparse import coo_matrix
+from scipy.sparse import coo_matrix, csc_matrix
 
 from pypower._compat import PY2
 from pypower.run_userfcn import run_userfcn
@@ -110,30 +110,21 @@ def savecase(fname, ppc, comment=None, version='2'):
             ppc_mat['areas'] = array(ppc['areas'])
         if 'gencost' in ppc:
             ppc_mat['gencost'] = array(ppc['gencost'])
-        if "A" in ppc and len(ppc["A"]) > 0:
-            ppc_mat["A"] = array(ppc["A"])
-            if "l" in ppc and len(ppc["l"]) > 0:
-                ppc_mat["l"] = array(ppc["l"])
-            if "u" in ppc and len(ppc["u"]) > 0:
-                ppc_mat["u"] = array(ppc["u"])
-        if "N" in ppc and len(ppc["N"]) > 0:
-            ppc_mat["N"] = array(ppc["N"])
-            if "H" in ppc and len(ppc["H"]) > 0:
-                ppc_mat["H"] = array(ppc["H"])
-            if "fparm" in ppc and len(ppc["fparm"]) > 0:
+        if has_data(ppc, "A"):
+            ppc_mat["A"] = csc_matrix(ppc["A"])
+            for key in ["l", "u"]:
+                if has_data(ppc, key):
+                    ppc_mat[key] = array(ppc[key])
+        if has_data(ppc, "N"):
+            ppc_mat["N"] = csc_matrix(ppc["N"])
+            if has_data(ppc, "H"):
+                ppc_mat["H"] = csc_matrix(ppc["H"])
+            if has_data(ppc, "fparm"):
                 ppc_mat["fparm"] = array(ppc["fparm"])
             ppc_mat["Cw"] = array(ppc["Cw"])
-        if 'z0' in ppc or 'zl' in ppc or 'zu' in ppc:
-            if 'z0' in ppc and len(ppc['z0']) > 0:
-                ppc_mat['z0'] = array(ppc['z0'])
-            if 'zl' in ppc and len(ppc['zl']) > 0:
-                ppc_mat['zl'] = array(ppc['zl'])
-            if 'zu' in ppc and len(ppc['zu']) > 0:
-                ppc_mat['zu'] = array(ppc['zu'])
-        if 'userfcn' in ppc and len(ppc['userfcn']) > 0:
-            ppc_mat['userfcn'] = array(ppc['userfcn'])
-        elif 'userfcn' in ppc:
-            ppc_mat['userfcn'] = ppc['userfcn']
+        for key in ['z0', 'zl', 'zu']:
+            if has_data(ppc, key):
+                ppc_mat[key] = array(ppc[key])
         for key in ['x', 'f']:
             if key in ppc:
                 ppc_mat[key] = ppc[key]
@@ -337,7 +328,7 @@ def savecase(fname, ppc, comment=None, version='2'):
 
 def has_data(ppc, key):
     """Whether C{ppc} has a non-empty array, dense or sparse, for C{key}."""
-    return ppc.get(key) is not None and ppc[key].shape[0] > 0
+    return ppc.get(key) is not None and shape(ppc[key])[0] > 0
 
 
 def print_vector(fd, varname, v, indent):
-- 
2.43.0


From 75e122b974ad942434825f2245b30fe95ef7946b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:39 +0000
Subject: [PATCH 055/107] fix: leave the indexing bookkeeping out of saved MAT
 cases

---
 pypower/savecase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/savecase.py b/pypower/savecase.py
index e04f3d6..be01a1c 100644
--- a/pypower/savecase.py
+++ b/pypower/savecase.py
@@ -128,7 +128,7 @@ def savecase(fname, ppc, comment=None, version='2'):
         for key in ['x', 'f']:
             if key in ppc:
                 ppc_mat[key] = ppc[key]
-        for key in ['lin', 'order', 'nln', 'var', 'raw', 'mu']:
+        for key in ['lin', 'nln', 'var', 'raw', 'mu']:
             if key in ppc:
                 ppc_mat[key] = array(ppc[key])
 
-- 
2.43.0


From 0d0ed9974130e5ed13ea1f68f125be8dbff3514a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:34 +0000
Subject: [PATCH 056/107] fix: save extension data to Python files that load

---
 pypower/savecase.py        |  7 +++++
 pypower/toggle_dcline.py   | 22 +++++---------
 pypower/toggle_iflims.py   | 36 +++++++++++-----------
 pypower/toggle_reserves.py | 61 +++++++++++++++-----------------------
 4 files changed, 56 insertions(+), 70 deletions(-)

diff --git a/pypower/savecase.py b/pypower/savecase.py
index be01a1c..7c1dfd1 100644
--- a/pypower/savecase.py
+++ b/pypower/savecase.py
@@ -338,6 +338,13 @@ def print_vector(fd, varname, v, indent):
     fd.write('%s])\n' % indent)
 
 
+def print_matrix(fd, varname, A, indent):
+    fd.write('%s%s = array([\n' % (indent, varname))
+    for row in A:
+        fd.write('%s    [%s],\n' % (indent, ', '.join(['%.9g' % x for x in row])))
+    fd.write('%s])\n' % indent)
+
+
 def print_sparse(fd, varname, A, indent):
     A = coo_matrix(A)
     i, j, s = A.row, A.col, A.data
diff --git a/pypower/toggle_dcline.py b/pypower/toggle_dcline.py
index a75dbcc..8b2e907 100644
--- a/pypower/toggle_dcline.py
+++ b/pypower/toggle_dcline.py
@@ -15,6 +15,7 @@ from pypower import idx_dcline
 from pypower.add_userfcn import add_userfcn
 from pypower.remove_userfcn import remove_userfcn
 from pypower.isload import isload
+from pypower.savecase import print_matrix
 
 from pypower.idx_gen import MBASE, GEN_STATUS, PMIN, PMAX, GEN_BUS, PG, QG, \
     VG, QMIN, QMAX, MU_QMIN, MU_PMAX, MU_PMIN, MU_QMAX
@@ -439,20 +440,13 @@ def userfcn_dcline_savecase(ppc, fd, prefix, args):
     c = idx_dcline.c
 
     ## save it
+    indent = '    '
     ncols = ppc['dcline'].shape[1]
-    fd.write('\n####-----  DC Line Data  -----####\n')
-    if ncols < c['MU_QMAXT']:
-        fd.write('##\tfbus\ttbus\tstatus\tPf\tPt\tQf\tQt\tVf\tVt\tPmin\tPmax\tQminF\tQmaxF\tQminT\tQmaxT\tloss0\tloss1\n')
-    else:
-        fd.write('##\tfbus\ttbus\tstatus\tPf\tPt\tQf\tQt\tVf\tVt\tPmin\tPmax\tQminF\tQmaxF\tQminT\tQmaxT\tloss0\tloss1\tmuPmin\tmuPmax\tmuQminF\tmuQmaxF\tmuQminT\tmuQmaxT\n')
-
-    template = '\t%d\t%d\t%d\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g'
-    if ncols == c['MU_QMAXT'] + 1:
-        template = [template, '\t%.4f\t%.4f\t%.4f\t%.4f\t%.4f\t%.4f']
-
-    template = template + ';\n'
-    fd.write('%sdcline = [\n' % prefix)
-    fd.write(template, ppc['dcline'].T)
-    fd.write('];\n')
+    fd.write('\n%s##-----  DC Line Data  -----##\n' % indent)
+    fd.write('%s# fbus tbus status Pf Pt Qf Qt Vf Vt Pmin Pmax QminF QmaxF QminT QmaxT loss0 loss1' % indent)
+    if ncols > c['MU_QMAXT']:
+        fd.write(' muPmin muPmax muQminF muQmaxF muQminT muQmaxT')
+    fd.write('\n')
+    print_matrix(fd, "%s['dcline']" % prefix, ppc['dcline'], indent)
 
     return ppc
diff --git a/pypower/toggle_iflims.py b/pypower/toggle_iflims.py
index 5328f28..3d9e5a0 100644
--- a/pypower/toggle_iflims.py
+++ b/pypower/toggle_iflims.py
@@ -7,7 +7,7 @@
 
 from sys import stderr
 
-from pprint import pprint
+from pypower.savecase import print_vector, print_matrix
 
 from numpy import zeros, arange, unique, sign, delete, flatnonzero as find
 
@@ -230,28 +230,26 @@ def userfcn_iflims_savecase(ppc, fd, prefix, *args):
     PYPOWER case dict (ppc), a file descriptor and variable prefix
     (usually 'ppc'). The optional args are not currently used.
     """
-    ifmap = ppc['if']['map']
-    iflims = ppc['if']['lims']
+    indent = '    '
+    var = "%s['if']" % prefix
 
-    fd.write('\n####-----  Interface Flow Limit Data  -----####\n')
-    fd.write('#### interface<->branch map data\n')
-    fd.write('##\tifnum\tbranchidx (negative defines opposite direction)\n')
-    fd.write('%sif.map = [\n' % prefix)
-    fd.write('\t%d\t%d;\n' % ifmap.T)
-    fd.write('];\n')
+    fd.write('\n%s##-----  Interface Flow Limit Data  -----##\n' % indent)
+    fd.write('%s%s = {}\n' % (indent, var))
+    fd.write('%s## interface<->branch map data\n' % indent)
+    fd.write('%s# ifnum branchidx (negative defines opposite direction)\n' % indent)
+    print_matrix(fd, "%s['map']" % var, ppc['if']['map'], indent)
 
-    fd.write('\n#### interface flow limit data (based on DC model)\n')
-    fd.write('#### (lower limit should be negative for opposite direction)\n')
-    fd.write('##\tifnum\tlower\tupper\n')
-    fd.write('%sif.lims = [\n' % prefix)
-    fd.write('\t%d\t%g\t%g;\n' % iflims.T)
-    fd.write('];\n')
+    fd.write('\n%s## interface flow limit data (based on DC model)\n' % indent)
+    fd.write('%s## (lower limit should be negative for opposite direction)\n' % indent)
+    fd.write('%s# ifnum lower upper\n' % indent)
+    print_matrix(fd, "%s['lims']" % var, ppc['if']['lims'], indent)
 
     ## save output fields for solved case
     if ('P' in ppc['if']):
-        fd.write('\n#### solved values\n')
-        fd.write('%sif.P = %s\n' % (prefix, pprint(ppc['if']['P'])))
-        fd.write('%sif.mu.l = %s\n' % (prefix, pprint(ppc['if']['mu']['l'])))
-        fd.write('%sif.mu.u = %s\n' % (prefix, pprint(ppc['if']['mu']['u'])))
+        fd.write('\n%s## solved values\n' % indent)
+        print_vector(fd, "%s['P']" % var, ppc['if']['P'], indent)
+        fd.write('%s%s[\'mu\'] = {}\n' % (indent, var))
+        for key in ['l', 'u']:
+            print_vector(fd, "%s['mu']['%s']" % (var, key), ppc['if']['mu'][key], indent)
 
     return ppc
diff --git a/pypower/toggle_reserves.py b/pypower/toggle_reserves.py
index 0269cab..e45ed1b 100644
--- a/pypower/toggle_reserves.py
+++ b/pypower/toggle_reserves.py
@@ -10,7 +10,7 @@ from pypower.i2e_data import i2e_data
 
 from sys import stderr
 
-from pprint import pprint
+from pypower.savecase import print_vector, print_matrix
 
 from numpy import zeros, ones, arange, inf, any, flatnonzero as find
 
@@ -364,47 +364,34 @@ def userfcn_reserves_savecase(ppc, fd, prefix, *args):
     (usually 'ppc'). The optional args are not currently used.
     """
     r = ppc['reserves']
+    indent = '    '
+    var = "%s['reserves']" % prefix
 
-    fd.write('\n####-----  Reserve Data  -----####\n')
-    fd.write('#### reserve zones, element i, j is 1 if gen j is in zone i, 0 otherwise\n')
-    fd.write('%sreserves.zones = [\n' % prefix)
-    template = ''
-    for _ in range(r['zones'].shape[1]):
-        template = template + '\t%d'
-    template = template + ';\n'
-    fd.write(template, r.zones.T)
-    fd.write('];\n')
-
-    fd.write('\n#### reserve requirements for each zone in MW\n')
-    fd.write('%sreserves.req = [\t%g' % (prefix, r['req'][0]))
-    if len(r['req']) > 1:
-        fd.write(';\t%g' % r['req'][1:])
-    fd.write('\t];\n')
-
-    fd.write('\n#### reserve costs in $/MW for each gen that belongs to at least 1 zone\n')
-    fd.write('#### (same order as gens, but skipping any gen that does not belong to any zone)\n')
-    fd.write('%sreserves.cost = [\t%g' % (prefix, r['cost'][0]))
-    if len(r['cost']) > 1:
-        fd.write(';\t%g' % r['cost'][1:])
-    fd.write('\t];\n')
+    fd.write('\n%s##-----  Reserve Data  -----##\n' % indent)
+    fd.write('%s%s = {}\n' % (indent, var))
+    fd.write('%s## reserve zones, element i, j is 1 if gen j is in zone i, 0 otherwise\n' % indent)
+    print_matrix(fd, "%s['zones']" % var, r['zones'], indent)
+
+    fd.write('\n%s## reserve requirements for each zone in MW\n' % indent)
+    print_vector(fd, "%s['req']" % var, r['req'], indent)
+
+    fd.write('\n%s## reserve costs in $/MW for each gen that belongs to at least 1 zone\n' % indent)
+    fd.write('%s## (same order as gens, but skipping any gen that does not belong to any zone)\n' % indent)
+    print_vector(fd, "%s['cost']" % var, r['cost'], indent)
 
     if 'qty' in r:
-        fd.write('\n#### OPTIONAL max reserve quantities for each gen that belongs to at least 1 zone\n')
-        fd.write('#### (same order as gens, but skipping any gen that does not belong to any zone)\n')
-        fd.write('%sreserves.qty = [\t%g' % (prefix, r['qty'][0]))
-        if len(r['qty']) > 1:
-            fd.write(';\t%g' % r['qty'][1:])
-        fd.write('\t];\n')
+        fd.write('\n%s## OPTIONAL max reserve quantities for each gen that belongs to at least 1 zone\n' % indent)
+        fd.write('%s## (same order as gens, but skipping any gen that does not belong to any zone)\n' % indent)
+        print_vector(fd, "%s['qty']" % var, r['qty'], indent)
 
     ## save output fields for solved case
     if 'R' in r:
-        fd.write('\n#### solved values\n')
-        fd.write('%sreserves.R = %s\n' % (prefix, pprint(r['R'])))
-        fd.write('%sreserves.Rmin = %s\n' % (prefix, pprint(r['Rmin'])))
-        fd.write('%sreserves.Rmax = %s\n' % (prefix, pprint(r['Rmax'])))
-        fd.write('%sreserves.mu.l = %s\n' % (prefix, pprint(r['mu']['l'])))
-        fd.write('%sreserves.mu.u = %s\n' % (prefix, pprint(r['mu']['u'])))
-        fd.write('%sreserves.prc = %s\n' % (prefix, pprint(r['prc'])))
-        fd.write('%sreserves.totalcost = %s\n' % (prefix, pprint(r['totalcost'])))
+        fd.write('\n%s## solved values\n' % indent)
+        for key in ['R', 'Rmin', 'Rmax', 'prc']:
+            print_vector(fd, "%s['%s']" % (var, key), r[key], indent)
+        fd.write('%s%s[\'mu\'] = {}\n' % (indent, var))
+        for key in ['l', 'u', 'Pmax']:
+            print_vector(fd, "%s['mu']['%s']" % (var, key), r['mu'][key], indent)
+        fd.write("%s%s['totalcost'] = %.9g\n" % (indent, var, r['totalcost']))
 
     return ppc
-- 
2.43.0


From d62174c2d1c61aa46ea1de08bbd52657bbd93681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:11 +0000
Subject: [PATCH 057/107] fix: read case tables as real numbers

---
 pypower/loadcase.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pypower/loadcase.py b/pypower/loadcase.py
index 2bdfd35..ae7af06 100644
--- a/pypower/loadcase.py
+++ b/pypower/loadcase.py
@@ -155,6 +155,10 @@ def loadcase(casefile,
 
             ## all fields present, copy to ppc
             ppc = deepcopy(s)
+            ## results are stored in these tables
+            for k in ['bus', 'gen', 'branch', 'gencost']:
+                if ppc.get(k) is not None:
+                    ppc[k] = array(ppc[k], float)
             if 'version' not in ppc:  ## hmm, struct with no 'version' field
                 if ppc['gen'].shape[1] < 21:    ## version 2 has 21 or 25 cols
                     ppc['version'] = '1'
-- 
2.43.0


From 78486f075dddd3d5da0df8c2d4a239242f2d315a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:10 +0000
Subject: [PATCH 058/107] fix: save cases loaded from MAT files of solved cases

---
 pypower/savecase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/savecase.py b/pypower/savecase.py
index 7c1dfd1..49e7157 100644
--- a/pypower/savecase.py
+++ b/pypower/savecase.py
@@ -129,7 +129,7 @@ def savecase(fname, ppc, comment=None, version='2'):
             if key in ppc:
                 ppc_mat[key] = ppc[key]
         for key in ['lin', 'nln', 'var', 'raw', 'mu']:
-            if key in ppc:
+            if isinstance(ppc.get(key), dict):   ## not what a MAT file gave back
                 ppc_mat[key] = array(ppc[key])
 
         savemat(fname, ppc_mat)
-- 
2.43.0


From 22aedf31056c128679369bb6f0a60b597c44adec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:51 +0000
Subject: [PATCH 059/107] fix: opf_model rejects blocks that do not fit or
 whose name is taken

---
 pypower/opf_model.py | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/pypower/opf_model.py b/pypower/opf_model.py
index 5c2e670..8fc380a 100644
--- a/pypower/opf_model.py
+++ b/pypower/opf_model.py
@@ -6,8 +6,6 @@
 problem formulation.
 """
 
-from sys import stderr
-
 from math import inf
 from numpy import array, zeros, ones, dot, arange, r_
 from numpy import flatnonzero as find
@@ -195,7 +193,7 @@ class opf_model(object):
         if u is None:  ## nonlinear
             ## prevent duplicate named constraint sets
             if name in self.nln["idx"]["N"]:
-                stderr.write("opf_model.add_constraints: nonlinear constraint set named '%s' already exists\n" % name)
+                raise ValueError("opf_model.add_constraints: nonlinear constraint set named '%s' already exists" % name)
 
             ## add info about this nonlinear constraint set
             self.nln["idx"]["i1"][name] = self.nln["N"] #+ 1    ## starting index
@@ -212,7 +210,7 @@ class opf_model(object):
         else:                ## linear
             ## prevent duplicate named constraint sets
             if name in self.lin["idx"]["N"]:
-                stderr.write('opf_model.add_constraints: linear constraint set named ''%s'' already exists\n' % name)
+                raise ValueError('opf_model.add_constraints: linear constraint set named \'%s\' already exists' % name)
 
             if varsets is None:
                 varsets = []
@@ -229,14 +227,14 @@ class opf_model(object):
 
             ## check sizes
             if (l.shape[0] != N) or (u.shape[0] != N):
-                stderr.write('opf_model.add_constraints: sizes of A, l and u must match\n')
+                raise ValueError('opf_model.add_constraints: sizes of A, l and u must match')
 
             nv = 0
             for k in range(len(varsets)):
                 nv = nv + self.var["idx"]["N"][varsets[k]]
 
             if M != nv:
-                stderr.write('opf_model.add_constraints: number of columns of A does not match\nnumber of variables, A is %d x %d, nv = %d\n' % (N, M, nv))
+                raise ValueError('opf_model.add_constraints: number of columns of A does not match\nnumber of variables, A is %d x %d, nv = %d' % (N, M, nv))
 
             ## add info about this linear constraint set
             self.lin["idx"]["i1"][name]  = self.lin["N"] #+ 1   ## starting index
@@ -303,7 +301,7 @@ class opf_model(object):
         """
         ## prevent duplicate named cost sets
         if name in self.cost["idx"]["N"]:
-            stderr.write('opf_model.add_costs: cost set named \'%s\' already exists\n' % name)
+            raise ValueError('opf_model.add_costs: cost set named \'%s\' already exists' % name)
 
         if varsets is None:
             varsets = []
@@ -322,30 +320,30 @@ class opf_model(object):
             if nw == 0:
                 cp = dict(cp, N=sparse((nw, nv)))
             else:
-                stderr.write('opf_model.add_costs: number of columns in N (%d x %d) does not match\nnumber of variables (%d)\n' % (nw, nx, nv))
+                raise ValueError('opf_model.add_costs: number of columns in N (%d x %d) does not match\nnumber of variables (%d)' % (nw, nx, nv))
 
         if cp["Cw"].shape[0] != nw:
-            stderr.write('opf_model.add_costs: number of rows of Cw (%d x %d) and N (%d x %d) must match\n' % (cp["Cw"].shape[0], nw, nx))
+            raise ValueError('opf_model.add_costs: number of rows of Cw (%d x %d) and N (%d x %d) must match' % (cp["Cw"].shape[0], 1, nw, nx))
 
         if 'H' in cp:
             if (cp["H"].shape[0] != nw) | (cp["H"].shape[1] != nw):
-                stderr.write('opf_model.add_costs: both dimensions of H (%d x %d) must match the number of rows in N (%d x %d)\n' % (cp["H"].shape, nw, nx))
+                raise ValueError('opf_model.add_costs: both dimensions of H (%d x %d) must match the number of rows in N (%d x %d)' % (cp["H"].shape[0], cp["H"].shape[1], nw, nx))
 
         if 'dd' in cp:
             if cp["dd"].shape[0] != nw:
-                stderr.write('opf_model.add_costs: number of rows of dd (%d x %d) and N (%d x %d) must match\n' % (cp["dd"].shape, nw, nx))
+                raise ValueError('opf_model.add_costs: number of rows of dd (%d x %d) and N (%d x %d) must match' % (cp["dd"].shape[0], 1, nw, nx))
 
         if 'rh' in cp:
             if cp["rh"].shape[0] != nw:
-                stderr.write('opf_model.add_costs: number of rows of rh (%d x %d) and N (%d x %d) must match\n' % (cp["rh"].shape, nw, nx))
+                raise ValueError('opf_model.add_costs: number of rows of rh (%d x %d) and N (%d x %d) must match' % (cp["rh"].shape[0], 1, nw, nx))
 
         if 'kk' in cp:
             if cp["kk"].shape[0] != nw:
-                stderr.write('opf_model.add_costs: number of rows of kk (%d x %d) and N (%d x %d) must match\n' % (cp["kk"].shape, nw, nx))
+                raise ValueError('opf_model.add_costs: number of rows of kk (%d x %d) and N (%d x %d) must match' % (cp["kk"].shape[0], 1, nw, nx))
 
         if 'mm' in cp:
             if cp["mm"].shape[0] != nw:
-                stderr.write('opf_model.add_costs: number of rows of mm (%d x %d) and N (%d x %d) must match\n' % (cp["mm"].shape, nw, nx))
+                raise ValueError('opf_model.add_costs: number of rows of mm (%d x %d) and N (%d x %d) must match' % (cp["mm"].shape[0], 1, nw, nx))
 
         ## add info about this user cost set
         self.cost["idx"]["i1"][name]  = self.cost["N"] #+ 1     ## starting index
@@ -389,7 +387,7 @@ class opf_model(object):
         """
         ## prevent duplicate named var sets
         if name in self.var["idx"]["N"]:
-            stderr.write('opf_model.add_vars: variable set named ''%s'' already exists\n' % name)
+            raise ValueError('opf_model.add_vars: variable set named \'%s\' already exists' % name)
 
         if v0 is None or len(v0) == 0:
             v0 = zeros(N)           ## init to zero by default
@@ -401,6 +399,10 @@ class opf_model(object):
             vu = inf * ones(N)      ## unbounded above by default
 
 
+        ## check sizes
+        if len(v0) != N or len(vl) != N or len(vu) != N:
+            raise ValueError('opf_model.add_vars: sizes of v0, vl and vu must be %d' % N)
+
         ## add info about this var set
         self.var["idx"]["i1"][name]  = self.var["N"] #+ 1   ## starting index
         self.var["idx"]["iN"][name]  = self.var["N"] + N   ## ing index
@@ -581,7 +583,7 @@ class opf_model(object):
             rh, kk - nw x 1 vectors (optional, all zeros by default)
         """
         if not 'params' in self.cost:
-            stderr.write('opf_model.get_cost_params: must call build_cost_params first\n')
+            raise ValueError('opf_model.get_cost_params: must call build_cost_params first')
 
         cp = self.cost["params"].copy()
 
-- 
2.43.0


From cddd03a64b152a57e02f5206faf7a1e554578045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:12 +0000
Subject: [PATCH 060/107] fix: opf_args2 starts from a copy of the loaded case

---
 pypower/opf_args.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pypower/opf_args.py b/pypower/opf_args.py
index 8292712..8060f42 100644
--- a/pypower/opf_args.py
+++ b/pypower/opf_args.py
@@ -334,7 +334,12 @@ def opf_args2(*args):
     baseMVA, bus, gen, branch, gencost, Au, lbu, ubu, \
         ppopt, N, fparm, H, Cw, z0, zl, zu, userfcn, areas = opf_args(*args)
 
-    ppc = args[0] if isinstance(args[0], dict) else {}
+    ## start from the case itself, in a copy, so that nothing it carries is
+    ## lost and nothing is changed for the caller
+    if isinstance(args[0], (basestring, dict)):
+        ppc = loadcase(args[0])
+    else:
+        ppc = {}
 
     ppc['baseMVA'] = baseMVA
     ppc['bus'] = bus
-- 
2.43.0


From 398565aba7a87fce3a16e6148e3013aa9cef3117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:21 +0000
Subject: [PATCH 061/107] fix: opf_args raises on a wrong number of arguments

---
 pypower/opf_args.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/opf_args.py b/pypower/opf_args.py
index 8060f42..05580bb 100644
--- a/pypower/opf_args.py
+++ b/pypower/opf_args.py
@@ -192,7 +192,7 @@ def opf_args(*args):
                 lbu   = array([])
                 Au    = None
         else:
-            stderr.write('opf_args: Incorrect input arg order, number or type\n')
+            raise ValueError('opf_args: Incorrect input arg order, number or type')
 
         ppc = loadcase(casefile)
         baseMVA, bus, gen, branch, gencost = \
@@ -291,7 +291,7 @@ def opf_args(*args):
                 lbu = array([])
                 Au = None
         else:
-            stderr.write('opf_args: Incorrect input arg order, number or type\n')
+            raise ValueError('opf_args: Incorrect input arg order, number or type')
 
     if N is not None:
         nw = N.shape[0]
-- 
2.43.0


From 672ad9326a9370addc4a7bd44deacd87b7cbe56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:01 +0000
Subject: [PATCH 062/107] fix: opf_args2 takes tables of whole numbers

---
 pypower/opf_args.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pypower/opf_args.py b/pypower/opf_args.py
index 05580bb..1fc1bf0 100644
--- a/pypower/opf_args.py
+++ b/pypower/opf_args.py
@@ -7,7 +7,7 @@
 
 from sys import stderr
 
-from numpy import array
+from numpy import array, asarray
 from scipy.sparse import issparse
 
 from pypower._compat import PY2
@@ -334,6 +334,10 @@ def opf_args2(*args):
     baseMVA, bus, gen, branch, gencost, Au, lbu, ubu, \
         ppopt, N, fparm, H, Cw, z0, zl, zu, userfcn, areas = opf_args(*args)
 
+    ## whole numbers only would not hold the results
+    bus, gen, branch, gencost = \
+        [asarray(x, float) for x in (bus, gen, branch, gencost)]
+
     ## start from the case itself, in a copy, so that nothing it carries is
     ## lost and nothing is changed for the caller
     if isinstance(args[0], (basestring, dict)):
-- 
2.43.0


From a1cdb39c8ac9f0bb2bc31ed9e6f2d30cf493edf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:09 +0000
Subject: [PATCH 063/107] fix: opf_args takes None and empty arguments for
 arguments not given

---
 pypower/opf_args.py | 44 ++++++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/pypower/opf_args.py b/pypower/opf_args.py
index 1fc1bf0..2210672 100644
--- a/pypower/opf_args.py
+++ b/pypower/opf_args.py
@@ -19,6 +19,12 @@ if not PY2:
     basestring = str
 
 
+def _isempty(x):
+    """True if the argument is not given: C{None}, or without any rows.
+    """
+    return x is None or (x.shape[0] if issparse(x) else len(x)) == 0
+
+
 def opf_args(*args):
     """Parses and initializes OPF input arguments.
 
@@ -201,21 +207,21 @@ def opf_args(*args):
             areas = ppc['areas']
         else:
             areas = array([])
-        if Au is None and 'A' in ppc:
+        if _isempty(Au) and 'A' in ppc:
             Au, lbu, ubu = ppc["A"], ppc["l"], ppc["u"]
-        if N is None and 'N' in ppc:  ## these two must go together
+        if _isempty(N) and 'N' in ppc:  ## these two must go together
             N, Cw = ppc["N"], ppc["Cw"]
-        if H is None and 'H' in ppc:  ## will default to zeros
+        if _isempty(H) and 'H' in ppc:  ## will default to zeros
             H = ppc["H"]
-        if (fparm is None or len(fparm) == 0) and 'fparm' in ppc:  ## will default to [1 0 0 1]
+        if _isempty(fparm) and 'fparm' in ppc:  ## will default to [1 0 0 1]
             fparm = ppc["fparm"]
-        if (z0 is None or len(z0) == 0) and 'z0' in ppc:
+        if _isempty(z0) and 'z0' in ppc:
             z0 = ppc["z0"]
-        if (zl is None or len(zl) == 0) and 'zl' in ppc:
+        if _isempty(zl) and 'zl' in ppc:
             zl = ppc["zl"]
-        if (zu is None or len(zu) == 0) and 'zu' in ppc:
+        if _isempty(zu) and 'zu' in ppc:
             zu = ppc["zu"]
-        if (userfcn is None or len(userfcn) == 0) and 'userfcn' in ppc:
+        if _isempty(userfcn) and 'userfcn' in ppc:
             userfcn = ppc['userfcn']
     else: ## passing individual data matrices
         # ----opf(baseMVA, bus, gen, branch, areas, gencost,      Au, lbu, ubu, ppopt, N, fparm, H, Cw, z0, zl, zu)
@@ -293,6 +299,12 @@ def opf_args(*args):
         else:
             raise ValueError('opf_args: Incorrect input arg order, number or type')
 
+    ## arguments not given are empty
+    lbu, ubu, fparm, Cw, z0, zl, zu, userfcn = \
+        [array([]) if _isempty(x) else x
+         for x in (lbu, ubu, fparm, Cw, z0, zl, zu, userfcn)]
+    Au, N, H = [None if _isempty(x) else x for x in (Au, N, H)]
+
     if N is not None:
         nw = N.shape[0]
     else:
@@ -353,21 +365,21 @@ def opf_args2(*args):
 
     if areas is not None and len(areas) > 0:
         ppc["areas"] = areas
-    if lbu is not None and len(lbu) > 0:
+    if Au is not None:
         ppc["A"], ppc["l"], ppc["u"] = Au, lbu, ubu
-    if Cw is not None and len(Cw) > 0:
+    if N is not None:
         ppc["N"], ppc["Cw"] = N, Cw
         if len(fparm) > 0:
             ppc["fparm"] = fparm
-        #if len(H) > 0:
-        ppc["H"] = H
-    if z0 is not None and len(z0) > 0:
+        if H is not None:
+            ppc["H"] = H
+    if len(z0) > 0:
         ppc["z0"] = z0
-    if zl is not None and len(zl) > 0:
+    if len(zl) > 0:
         ppc["zl"] = zl
-    if zu is not None and len(zu) > 0:
+    if len(zu) > 0:
         ppc["zu"] = zu
-    if userfcn is not None and len(userfcn) > 0:
+    if len(userfcn) > 0:
         ppc["userfcn"] = userfcn
 
     return ppc, ppopt
-- 
2.43.0


From 40f29199283a2a0529de443f9205c34d2481be42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:16 +0000
Subject: [PATCH 064/107] fix: opf_args raises on mismatching dimensions and
 takes dense A, N and H

---
 pypower/opf_args.py | 41 +++++++++++++++++------------------------
 1 file changed, 17 insertions(+), 24 deletions(-)

diff --git a/pypower/opf_args.py b/pypower/opf_args.py
index 2210672..de42da5 100644
--- a/pypower/opf_args.py
+++ b/pypower/opf_args.py
@@ -5,10 +5,8 @@
 """Parses and initializes OPF input arguments.
 """
 
-from sys import stderr
-
 from numpy import array, asarray
-from scipy.sparse import issparse
+from scipy.sparse import issparse, csr_matrix
 
 from pypower._compat import PY2
 from pypower.ppoption import ppoption
@@ -312,27 +310,22 @@ def opf_args(*args):
 
     if nw:
         if Cw.shape[0] != nw:
-            stderr.write('opf_args.m: dimension mismatch between N and Cw in '
-                         'generalized cost parameters\n')
-        if len(fparm) > 0 and fparm.shape[0] != nw:
-            stderr.write('opf_args.m: dimension mismatch between N and fparm '
-                         'in generalized cost parameters\n')
-        if (H is not None) and (H.shape[0] != nw | H.shape[0] != nw):
-            stderr.write('opf_args.m: dimension mismatch between N and H in '
-                         'generalized cost parameters\n')
-        if Au is not None:
-            if Au.shape[0] > 0 and N.shape[1] != Au.shape[1]:
-                stderr.write('opf_args.m: A and N must have the same number '
-                             'of columns\n')
-        ## make sure N and H are sparse
-        if not issparse(N):
-            stderr.write('opf_args.m: N must be sparse in generalized cost '
-                         'parameters\n')
-        if (H is not None) and not issparse(H):
-            stderr.write('opf_args.m: H must be sparse in generalized cost parameters\n')
-
-    if Au is not None and not issparse(Au):
-        stderr.write('opf_args.m: Au must be sparse\n')
+            raise ValueError('opf_args: dimension mismatch between N and Cw in '
+                             'generalized cost parameters')
+        if len(fparm) > 0 and fparm.shape != (nw, 4):
+            raise ValueError('opf_args: dimension mismatch between N and fparm '
+                             'in generalized cost parameters')
+        if (H is not None) and H.shape != (nw, nw):
+            raise ValueError('opf_args: dimension mismatch between N and H in '
+                             'generalized cost parameters')
+        if Au is not None and N.shape[1] != Au.shape[1]:
+            raise ValueError('opf_args: A and N must have the same number '
+                             'of columns')
+
+    ## make sure A, N and H are sparse
+    Au, N, H = [x if x is None or issparse(x) else csr_matrix(x)
+                for x in (Au, N, H)]
+
     if ppopt == None or len(ppopt) == 0:
         ppopt = ppoption()
 
-- 
2.43.0


From 7700e3c3620ea951cd92b27c9779151c77d43465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:23 +0000
Subject: [PATCH 065/107] fix: opf_setup raises on user matrices of the wrong
 width

---
 pypower/opf_setup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/opf_setup.py b/pypower/opf_setup.py
index cd949db..2991ad8 100644
--- a/pypower/opf_setup.py
+++ b/pypower/opf_setup.py
@@ -193,12 +193,12 @@ def opf_setup(ppc, ppopt):
     if nusr:
         nz = ppc['A'].shape[1] - nx  ## number of user z variables
         if nz < 0:
-            stderr.write('opf_setup: user supplied A matrix must have at least %d columns.\n' % nx)
+            raise ValueError('opf_setup: user supplied A matrix must have at least %d columns.' % nx)
     else:
         nz = 0               ## number of user z variables
         if nw:               ## still need to check number of columns of N
             if ppc['N'].shape[1] != nx:
-                stderr.write('opf_setup: user supplied N matrix must have %d columns.\n' % nx)
+                raise ValueError('opf_setup: user supplied N matrix must have %d columns.' % nx)
 
     ## construct OPF model object
     om = opf_model(ppc)
-- 
2.43.0


From b6009069b4fd4985a3aa000aff971d3efabed5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:57 +0000
Subject: [PATCH 066/107] fix: pplinsolve gives nan for a matrix that cannot be
 factorized

---
 pypower/pplinsolve.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pypower/pplinsolve.py b/pypower/pplinsolve.py
index 968a8c9..8cc6129 100644
--- a/pypower/pplinsolve.py
+++ b/pypower/pplinsolve.py
@@ -1,4 +1,4 @@
-from numpy import asfortranarray
+from numpy import asfortranarray, nan, ones
 from scipy.sparse import csc_matrix, csr_matrix
 from scipy.sparse.linalg import spsolve
 
@@ -24,6 +24,9 @@ def pplinsolve(A, b, lin_solver=None):
         import pyrlu
         pyrlu.factor_solve(n, A.indices, A.indptr, A.data, x, trans=trans, par=False)
     else:
-        x = spsolve(A, b)
+        try:
+            x = spsolve(A, b)
+        except RuntimeError:    ## cannot be factorized, no more than a singular one
+            x = nan * ones(A.shape[0])
 
     return x
-- 
2.43.0


From cb8798d4d4e79ffb7c5eecd9ae5458a2740f10b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:06 +0000
Subject: [PATCH 067/107] fix: opf checks the width of user matrices against
 the whole case

---
 pypower/opf.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pypower/opf.py b/pypower/opf.py
index 814b89f..079a190 100644
--- a/pypower/opf.py
+++ b/pypower/opf.py
@@ -162,6 +162,13 @@ def opf(*args):
     if shape(ppc['branch'])[1] < MU_ANGMAX + 1:
         ppc['branch'] = c_[ppc['branch'], zeros((nl, MU_ANGMAX + 1 - shape(ppc['branch'])[1]))]
 
+    ## make sure user matrices fit the whole case, before anything is taken out
+    nx = nb + ng if ppopt['PF_DC'] else 2 * nb + 2 * ng
+    for k in ['A', 'N']:
+        if k in ppc and shape(ppc[k])[1] < nx:
+            raise ValueError('opf: user supplied %s matrix must have at least '
+                             '%d columns.' % (k, nx))
+
     ##-----  convert to internal numbering, remove out-of-service stuff  -----
     ppc = ext2int(ppc)
 
-- 
2.43.0


From 0374456ed7947837ffc77ecd8953cb46bbd7ba3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:04 +0000
Subject: [PATCH 068/107] fix: opf_setup raises on DC user constraints and
 costs on Vm or Qg

---
 pypower/opf_setup.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pypower/opf_setup.py b/pypower/opf_setup.py
index 2991ad8..198dcdd 100644
--- a/pypower/opf_setup.py
+++ b/pypower/opf_setup.py
@@ -71,7 +71,7 @@ def opf_setup(ppc, ppopt):
             if nusr and (ppc['A'].shape[1] >= 2*nb + 2*ng):
                 ## make sure there aren't any constraints on Vm or Qg
                 if ppc['A'][:, acc].nnz > 0:
-                    stderr.write('opf_setup: attempting to solve DC OPF with user constraints on Vm or Qg\n')
+                    raise ValueError('opf_setup: attempting to solve DC OPF with user constraints on Vm or Qg')
 
                 # FIXME: delete sparse matrix columns
                 bcc = delete(arange(ppc['A'].shape[1]), acc)
@@ -81,10 +81,10 @@ def opf_setup(ppc, ppopt):
                 ## make sure there aren't any costs on Vm or Qg
                 if ppc['N'][:, acc].nnz > 0:
                     ii, _ = nonzero(ppc['N'][:, acc])
-                    _, ii = unique(ii, return_index=True)    ## indices of w with potential non-zero cost terms from Vm or Qg
-                    if any(ppc['Cw'][ii]) | ( ('H' in ppc) & (len(ppc['H']) > 0) &
-                            any(any(ppc['H'][:, ii])) ):
-                        stderr.write('opf_setup: attempting to solve DC OPF with user costs on Vm or Qg\n')
+                    ii = unique(ii)    ## indices of w with potential non-zero cost terms from Vm or Qg
+                    if any(ppc['Cw'][ii]) or (ppc.get('H') is not None and
+                            ppc['H'].tocsc()[:, ii].nnz > 0):
+                        raise ValueError('opf_setup: attempting to solve DC OPF with user costs on Vm or Qg')
 
                 # FIXME: delete sparse matrix columns
                 bcc = delete(arange(ppc['N'].shape[1]), acc)
-- 
2.43.0


From abbe84f74153490ceb6085446dd45987f29d3277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:00 +0000
Subject: [PATCH 069/107] fix: total_load counts dispatchable loads

---
 pypower/total_load.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pypower/total_load.py b/pypower/total_load.py
index 7eb85a3..100845e 100644
--- a/pypower/total_load.py
+++ b/pypower/total_load.py
@@ -80,7 +80,7 @@ def total_load(bus, gen=None, load_zone=None, which_type=None):
     elif len(load_zone) == 0:
         load_zone = bus[:, BUS_AREA].astype(int)   ## use areas defined in bus data as zones
 
-    nz = max(load_zone)    ## number of load zones
+    nz = int(max(load_zone))    ## number of load zones
 
     ## fixed load at each bus, & initialize dispatchable
     if want_fixed:
@@ -100,11 +100,11 @@ def total_load(bus, gen=None, load_zone=None, which_type=None):
 
         ## create map of external bus numbers to bus indices
         i2e = bus[:, BUS_I].astype(int)
-        e2i = zeros(max(i2e) + 1)
+        e2i = zeros(max(i2e) + 1, int)
         e2i[i2e] = arange(nb)
 
         gbus = gen[:, GEN_BUS].astype(int)
-        Cld = sparse((is_ld, (e2i[gbus], arange(ng))), (nb, ng))
+        Cld = sparse((is_ld.astype(float), (e2i[gbus], arange(ng))), (nb, ng))
         Pdd = -Cld * gen[:, PMIN]      ## real power
         if want_Q:
             Q = zeros(ng)
-- 
2.43.0


From a6ca4488f5041e4c5a96ceed12ead20b8da68343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:30 +0000
Subject: [PATCH 070/107] fix: total_load without gen counts no dispatchable
 loads, and rejects invalid which_type

---
 pypower/total_load.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/pypower/total_load.py b/pypower/total_load.py
index 100845e..9d1600e 100644
--- a/pypower/total_load.py
+++ b/pypower/total_load.py
@@ -5,8 +5,6 @@
 """Total load in each load zone.
 """
 
-from sys import stderr
-
 from numpy import zeros, ones, array, arange
 from numpy import flatnonzero as find
 
@@ -61,18 +59,15 @@ def total_load(bus, gen=None, load_zone=None, which_type=None):
         load_zone = array([], int)
 
     ## fill out and check which_type
-    if len(gen) == 0:
-        which_type = 'FIXED'
-
-    if (which_type == None) and (len(gen) > 0):
-        which_type = 'BOTH'     ## 'FIXED', 'DISPATCHABLE' or 'BOTH'
+    if which_type is None:      ## 'FIXED', 'DISPATCHABLE' or 'BOTH'
+        which_type = 'BOTH' if len(gen) > 0 else 'FIXED'
 
     if (which_type[0] != 'F') and (which_type[0] != 'D') and (which_type[0] != 'B'):
-        stderr.write("total_load: which_type should be 'FIXED, 'DISPATCHABLE or 'BOTH'\n")
+        raise ValueError("total_load: which_type should be 'FIXED, 'DISPATCHABLE or 'BOTH'")
 
     want_Q      = True
     want_fixed  = (which_type[0] == 'B') | (which_type[0] == 'F')
-    want_disp   = (which_type[0] == 'B') | (which_type[0] == 'D')
+    want_disp   = ((which_type[0] == 'B') | (which_type[0] == 'D')) and len(gen) > 0
 
     ## initialize load_zone
     if isinstance(load_zone, basestring) and (load_zone == 'all'):
-- 
2.43.0


From 88c2a76d221061ca5bea8416218d4a892c3e2987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:31 +0000
Subject: [PATCH 071/107] fix: scale_load scales a single zone, dispatchable
 loads and by a scalar

---
 pypower/scale_load.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pypower/scale_load.py b/pypower/scale_load.py
index 60fa8d2..2ae84d4 100644
--- a/pypower/scale_load.py
+++ b/pypower/scale_load.py
@@ -7,7 +7,7 @@
 
 from sys import stderr
 
-from numpy import array, zeros, arange, in1d, ix_
+from numpy import array, zeros, arange, in1d, ix_, atleast_1d
 from numpy import flatnonzero as find
 
 from scipy.sparse import csr_matrix as sparse
@@ -71,6 +71,7 @@ def scale_load(load, bus, gen=None, load_zone=None, opt=None):
 
     ##-----  process inputs  -----
     bus = bus.copy()
+    load = atleast_1d(load).astype(float)
     if gen is None:
         gen = array([])
     else:
@@ -110,7 +111,7 @@ def scale_load(load, bus, gen=None, load_zone=None, opt=None):
         e2i[i2e] = arange(nb)
 
         gbus = gen[:, GEN_BUS].astype(int)
-        Cld = sparse((is_ld, (e2i[gbus], arange(ng))), (nb, ng))
+        Cld = sparse((is_ld.astype(float), (e2i[gbus], arange(ng))), (nb, ng))
     else:
         ng = 0
         ld = array([], int)
@@ -118,7 +119,7 @@ def scale_load(load, bus, gen=None, load_zone=None, opt=None):
     if len(load_zone) == 0:
         if len(load) == 1:        ## make a single zone of all load buses
             load_zone = zeros(nb, int)             ## initialize
-            load_zone[bus[:, PD] != 0 or bus[:, QD] != 0] = 1  ## FIXED loads
+            load_zone[(bus[:, PD] != 0) | (bus[:, QD] != 0)] = 1  ## FIXED loads
             if len(gen) > 0:
                 gbus = gen[ld, GEN_BUS].astype(int)
                 load_zone[e2i[gbus]] = 1    ## DISPATCHABLE loads
-- 
2.43.0


From 8799e2605625207191a9dfc22f6d890747fbcedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:31 +0000
Subject: [PATCH 072/107] fix: scale_load leaves the caller's options alone

---
 pypower/scale_load.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pypower/scale_load.py b/pypower/scale_load.py
index 2ae84d4..98f1ca2 100644
--- a/pypower/scale_load.py
+++ b/pypower/scale_load.py
@@ -78,8 +78,7 @@ def scale_load(load, bus, gen=None, load_zone=None, opt=None):
         gen = gen.copy()
     if load_zone is None:
         load_zone = array([], int)
-    if opt is None:
-        opt = {}
+    opt = {} if opt is None else dict(opt)
 
     ## fill out and check opt
     if len(gen) == 0:
-- 
2.43.0


From 6f61680db8c7a45cbfb796a3561f315df4b03f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:40 +0000
Subject: [PATCH 073/107] fix: scale_load rejects invalid options and loads

---
 pypower/scale_load.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/pypower/scale_load.py b/pypower/scale_load.py
index 98f1ca2..d426a05 100644
--- a/pypower/scale_load.py
+++ b/pypower/scale_load.py
@@ -5,8 +5,6 @@
 """Scales fixed and/or dispatchable loads.
 """
 
-from sys import stderr
-
 from numpy import array, zeros, arange, in1d, ix_, atleast_1d
 from numpy import flatnonzero as find
 
@@ -81,22 +79,20 @@ def scale_load(load, bus, gen=None, load_zone=None, opt=None):
     opt = {} if opt is None else dict(opt)
 
     ## fill out and check opt
-    if len(gen) == 0:
-        opt["which"] = 'FIXED'
     if 'pq' not in opt:
         opt["pq"] = 'PQ'          ## 'PQ' or 'P'
     if 'which' not in opt:
-        opt["which"] = 'BOTH'     ## 'FIXED', 'DISPATCHABLE' or 'BOTH'
+        opt["which"] = 'BOTH' if len(gen) > 0 else 'FIXED'     ## 'FIXED', 'DISPATCHABLE' or 'BOTH'
     if 'scale' not in opt:
         opt["scale"] = 'FACTOR'   ## 'FACTOR' or 'QUANTITY'
     if (opt["pq"] != 'P') and (opt["pq"] != 'PQ'):
-        stderr.write("scale_load: opt['pq'] must equal 'PQ' or 'P'\n")
+        raise ValueError("scale_load: opt['pq'] must equal 'PQ' or 'P'")
     if (opt["which"][0] != 'F') and (opt["which"][0] != 'D') and (opt["which"][0] != 'B'):
-        stderr.write("scale_load: opt.which should be 'FIXED, 'DISPATCHABLE or 'BOTH'\n")
+        raise ValueError("scale_load: opt.which should be 'FIXED, 'DISPATCHABLE or 'BOTH'")
     if (opt["scale"][0] != 'F') and (opt["scale"][0] != 'Q'):
-        stderr.write("scale_load: opt.scale should be 'FACTOR or 'QUANTITY'\n")
+        raise ValueError("scale_load: opt.scale should be 'FACTOR or 'QUANTITY'")
     if (len(gen) == 0) and (opt["which"][0] != 'F'):
-        stderr.write('scale_load: need gen matrix to scale dispatchable loads\n')
+        raise ValueError('scale_load: need gen matrix to scale dispatchable loads')
 
     ## create dispatchable load connection matrix
     if len(gen) > 0:
@@ -127,7 +123,7 @@ def scale_load(load, bus, gen=None, load_zone=None, opt=None):
 
     ## check load_zone to make sure it's consistent with size of load vector
     if max(load_zone) > len(load):
-        stderr.write('scale_load: load vector must have a value for each load zone specified\n')
+        raise ValueError('scale_load: load vector must have a value for each load zone specified')
 
     ##-----  compute scale factors for each zone  -----
     scale = load.copy()
-- 
2.43.0


From 548443c1145b06d5e63215a4a1de5f36e4d05e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:36 +0000
Subject: [PATCH 074/107] fix: scale_load without gen takes BOTH for FIXED, as
 before

---
 pypower/scale_load.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pypower/scale_load.py b/pypower/scale_load.py
index d426a05..80827d9 100644
--- a/pypower/scale_load.py
+++ b/pypower/scale_load.py
@@ -79,10 +79,12 @@ def scale_load(load, bus, gen=None, load_zone=None, opt=None):
     opt = {} if opt is None else dict(opt)
 
     ## fill out and check opt
+    if len(gen) == 0 and opt.get('which', 'BOTH')[0] == 'B':
+        opt["which"] = 'FIXED'    ## there are no dispatchable loads
     if 'pq' not in opt:
         opt["pq"] = 'PQ'          ## 'PQ' or 'P'
     if 'which' not in opt:
-        opt["which"] = 'BOTH' if len(gen) > 0 else 'FIXED'     ## 'FIXED', 'DISPATCHABLE' or 'BOTH'
+        opt["which"] = 'BOTH'       ## 'FIXED', 'DISPATCHABLE' or 'BOTH'
     if 'scale' not in opt:
         opt["scale"] = 'FACTOR'   ## 'FACTOR' or 'QUANTITY'
     if (opt["pq"] != 'P') and (opt["pq"] != 'PQ'):
-- 
2.43.0


From 266b6ed26d1cdd7571f5a7b1840d05595baa0c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:31 +0000
Subject: [PATCH 075/107] fix: scale_load scales tables of whole numbers

---
 pypower/scale_load.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/scale_load.py b/pypower/scale_load.py
index 80827d9..65dc5dd 100644
--- a/pypower/scale_load.py
+++ b/pypower/scale_load.py
@@ -68,12 +68,12 @@ def scale_load(load, bus, gen=None, load_zone=None, opt=None):
     nb = bus.shape[0]   ## number of buses
 
     ##-----  process inputs  -----
-    bus = bus.copy()
+    bus = bus.astype(float)     ## copies
     load = atleast_1d(load).astype(float)
     if gen is None:
         gen = array([])
     else:
-        gen = gen.copy()
+        gen = gen.astype(float)
     if load_zone is None:
         load_zone = array([], int)
     opt = {} if opt is None else dict(opt)
-- 
2.43.0


From 82cafbcf87b4b67217157bfb081fba58cc0b74c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:44 +0000
Subject: [PATCH 076/107] fix: refuse reserve data of inconsistent size

---
 pypower/toggle_reserves.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pypower/toggle_reserves.py b/pypower/toggle_reserves.py
index e45ed1b..569e05d 100644
--- a/pypower/toggle_reserves.py
+++ b/pypower/toggle_reserves.py
@@ -111,14 +111,14 @@ def userfcn_reserves_ext2int(ppc, *args):
 
     ## check data for consistent dimensions
     if r['zones'].shape[0] != nrz:
-        stderr.write('userfcn_reserves_ext2int: the number of rows in ppc[\'reserves\'][\'req\'] (%d) and ppc[\'reserves\'][\'zones\'] (%d) must match\n' % (nrz, r['zones'].shape[0]))
+        raise ValueError('userfcn_reserves_ext2int: the number of rows in ppc[\'reserves\'][\'req\'] (%d) and ppc[\'reserves\'][\'zones\'] (%d) must match' % (nrz, r['zones'].shape[0]))
 
     if (r['cost'].shape[0] != ng0) & (r['cost'].shape[0] != ngr):
-        stderr.write('userfcn_reserves_ext2int: the number of rows in ppc[\'reserves\'][\'cost\'] (%d) must equal the total number of generators (%d) or the number of generators able to provide reserves (%d)\n' % (r['cost'].shape[0], ng0, ngr))
+        raise ValueError('userfcn_reserves_ext2int: the number of rows in ppc[\'reserves\'][\'cost\'] (%d) must equal the total number of generators (%d) or the number of generators able to provide reserves (%d)' % (r['cost'].shape[0], ng0, ngr))
 
     if 'qty' in r:
         if r['qty'].shape[0] != r['cost'].shape[0]:
-            stderr.write('userfcn_reserves_ext2int: ppc[\'reserves\'][\'cost\'] (%d x 1) and ppc[\'reserves\'][\'qty\'] (%d x 1) must be the same dimension\n' % (r['cost'].shape[0], r['qty'].shape[0]))
+            raise ValueError('userfcn_reserves_ext2int: ppc[\'reserves\'][\'cost\'] (%d x 1) and ppc[\'reserves\'][\'qty\'] (%d x 1) must be the same dimension' % (r['cost'].shape[0], r['qty'].shape[0]))
 
 
     ## convert both cost and qty from ngr x 1 to full ng x 1 vectors if necessary
-- 
2.43.0


From 2d892d81fbcca2d6e242d8754e8db056d344af01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:52 +0000
Subject: [PATCH 077/107] fix: reserves when no unit in service can provide
 them

---
 pypower/toggle_reserves.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pypower/toggle_reserves.py b/pypower/toggle_reserves.py
index 569e05d..321861e 100644
--- a/pypower/toggle_reserves.py
+++ b/pypower/toggle_reserves.py
@@ -235,19 +235,20 @@ def userfcn_reserves_int2ext(results, *args):
     ##-----  results post-processing  -----
     ## get the results (per gen reserves, multipliers) with internal gen indexing
     ## and convert from p.u. to per MW units
-    _, Rl, Ru = results['om'].getv('R')
     R       = zeros(ng)
     Rmin    = zeros(ng)
     Rmax    = zeros(ng)
     mu_l    = zeros(ng)
     mu_u    = zeros(ng)
     mu_Pmax = zeros(ng)
-    R[igr]       = results['var']['val']['R'] * results['baseMVA']
-    Rmin[igr]    = Rl * results['baseMVA']
-    Rmax[igr]    = Ru * results['baseMVA']
-    mu_l[igr]    = results['var']['mu']['l']['R'] / results['baseMVA']
-    mu_u[igr]    = results['var']['mu']['u']['R'] / results['baseMVA']
-    mu_Pmax[igr] = results['lin']['mu']['u']['Pg_plus_R'] / results['baseMVA']
+    if len(igr) > 0:        ## some unit in service can provide reserves
+        _, Rl, Ru = results['om'].getv('R')
+        R[igr]       = results['var']['val']['R'] * results['baseMVA']
+        Rmin[igr]    = Rl * results['baseMVA']
+        Rmax[igr]    = Ru * results['baseMVA']
+        mu_l[igr]    = results['var']['mu']['l']['R'] / results['baseMVA']
+        mu_u[igr]    = results['var']['mu']['u']['R'] / results['baseMVA']
+        mu_Pmax[igr] = results['lin']['mu']['u']['Pg_plus_R'] / results['baseMVA']
 
     ## store in results in results struct
     z = zeros(ng0)
@@ -264,7 +265,7 @@ def userfcn_reserves_int2ext(results, *args):
         iz = find(r['zones'][:, k])
         results['reserves']['prc'][k] = sum(results['lin']['mu']['l']['Rreq'][iz]) / results['baseMVA']
 
-    results['reserves']['totalcost'] = results['cost']['Rcost']
+    results['reserves']['totalcost'] = results['cost']['Rcost'] if len(igr) > 0 else 0.
 
     ## replace ng x 1 cost, qty with ngr x 1 originals
     if 'original' in r:
-- 
2.43.0


From 4f11c3f9cbdee4699126a18daab8cf01556c0dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:11 +0000
Subject: [PATCH 078/107] fix: power flow with reserves switched on

---
 pypower/toggle_reserves.py | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/pypower/toggle_reserves.py b/pypower/toggle_reserves.py
index 321861e..0511ebf 100644
--- a/pypower/toggle_reserves.py
+++ b/pypower/toggle_reserves.py
@@ -226,13 +226,30 @@ def userfcn_reserves_int2ext(results, *args):
     results['order']['int']['reserves']['igr'] = results['reserves']['igr']  ## save internal version
     results['reserves']['igr'] = results['order']['ext']['reserves']['igr']  ## use external version
     r = results['reserves']       ## update
-    o = results['order']          ## update
 
-    ## grab same info in external indexing order
+    ##-----  results post-processing  -----
+    if 'om' in results:         ## results of an OPF
+        results = package_results(results, igr, ng)
+
+    ## replace ng x 1 cost, qty with ngr x 1 originals
+    if 'original' in r:
+        if 'qty' in r:
+            results['reserves']['qty'] = r['original']['qty']
+        results['reserves']['cost'] = r['original']['cost']
+        del results['reserves']['original']
+
+    return results
+
+
+def package_results(results, igr, ng):
+    """Stores the reserves, their limits and prices for each gen, in external
+    order, in the results. C{igr} are the gens available to provide reserves
+    among the C{ng} in service, in internal order.
+    """
+    r = results['reserves']
     igr0 = r['igr']               ## indices of gens available to provide reserves
-    ng0  = o['ext']['gen'].shape[0]  ## number of gens (+ disp loads)
+    ng0  = results['order']['ext']['gen'].shape[0]  ## number of gens (+ disp loads)
 
-    ##-----  results post-processing  -----
     ## get the results (per gen reserves, multipliers) with internal gen indexing
     ## and convert from p.u. to per MW units
     R       = zeros(ng)
@@ -267,13 +284,6 @@ def userfcn_reserves_int2ext(results, *args):
 
     results['reserves']['totalcost'] = results['cost']['Rcost'] if len(igr) > 0 else 0.
 
-    ## replace ng x 1 cost, qty with ngr x 1 originals
-    if 'original' in r:
-        if 'qty' in r:
-            results['reserves']['qty'] = r['original']['qty']
-        results['reserves']['cost'] = r['original']['cost']
-        del results['reserves']['original']
-
     return results
 
 
@@ -286,7 +296,7 @@ def userfcn_reserves_printpf(results, fd, ppopt, *args):
     r = results['reserves']
     nrz = r['req'].shape[0]
     OUT_ALL = ppopt['OUT_ALL']
-    if OUT_ALL != 0:
+    if OUT_ALL != 0 and 'R' in r:
         fd.write('\n================================================================================')
         fd.write('\n|     Reserves                                                                 |')
         fd.write('\n================================================================================')
-- 
2.43.0


From a4330bb9515fc087f5f87044220dd767cc6ca189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:26 +0000
Subject: [PATCH 079/107] fix: interface maps mean the case's own branches

---
 pypower/toggle_iflims.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/pypower/toggle_iflims.py b/pypower/toggle_iflims.py
index 3d9e5a0..1145b26 100644
--- a/pypower/toggle_iflims.py
+++ b/pypower/toggle_iflims.py
@@ -9,7 +9,7 @@ from sys import stderr
 
 from pypower.savecase import print_vector, print_matrix
 
-from numpy import zeros, arange, unique, sign, delete, flatnonzero as find
+from numpy import array, zeros, arange, unique, signbit, where
 
 from scipy.sparse import lil_matrix, csr_matrix as sparse
 
@@ -32,7 +32,8 @@ def toggle_iflims(ppc, on_off):
         by the set of rows whose 1st col is equal to I. The
         2nd column is a branch index multiplied by 1 or -1
         respectively for lines whose orientation is the same
-        as or opposite to that of the interface.
+        as or opposite to that of the interface (-0.0 is branch 0
+        with opposite orientation).
         - C{lims}    C{nif x 3}, defines the DC model flow limits in MW
         for specified interfaces. The 2nd and 3rd columns specify
         the lower and upper limits on the (DC model) flow
@@ -91,21 +92,29 @@ def userfcn_iflims_ext2int(ppc, *args):
 
     ## save if.map for external indexing
     ppc['order']['ext']['ifmap'] = ifmap
+    ifmap = array(ifmap, float)
 
     ##-----  convert stuff to internal indexing  -----
     e2i = zeros(nl0)
     e2i[o['branch']['status']['on']] = arange(nl)  ## ext->int branch index mapping
-    d = sign(ifmap[:, 1])
-    br = abs(ifmap[:, 1]).astype(int)
+    d, br = directions(ifmap[:, 1])
     ifmap[:, 1] = d * e2i[br]
 
-    ifmap = delete(ifmap, find(ifmap[:, 1] == 0), 0)  ## delete branches that are out
+    on = zeros(nl0, bool)
+    on[o['branch']['status']['on']] = True
+    ifmap = ifmap[on[br], :]             ## delete branches that are out
 
-    ppc['if']['map'] = ifmap
+    ppc['if'] = dict(ppc['if'], map=ifmap)
 
     return ppc
 
 
+def directions(br):
+    """Splits signed branch indices into directions (1 or -1) and indices.
+    """
+    return where(signbit(br), -1, 1), abs(br).astype(int)
+
+
 def userfcn_iflims_formulation(om, *args):
     """This is the 'formulation' stage userfcn callback that defines the
     user costs and constraints for interface flow limits. It expects to
@@ -130,12 +139,10 @@ def userfcn_iflims_formulation(om, *args):
     uif = zeros(nifs)
     for k in range(nifs):
         ## extract branch indices
-        br = ifmap[ifmap[:, 0] == ifidx[k], 1]
+        d, br = directions(ifmap[ifmap[:, 0] == ifidx[k], 1])
         if len(br) == 0:
             stderr.write('userfcn_iflims_formulation: interface %d has no in-service branches\n' % k)
 
-        d = sign(br)
-        br = abs(br)
         Ak = sparse((1, n))              ## Ak = sum( d(i) * Bf(i, :) )
         bk = 0                           ## bk = sum( d(i) * Pfinj(i) )
         for i in range(len(br)):
@@ -173,9 +180,7 @@ def userfcn_iflims_int2ext(results, *args):
     results['if']['P'] = zeros(nifs)
     for k in range(nifs):
         ## extract branch indices
-        br = ifmap[ifmap[:, 0] == ifidx[k], 1]
-        d = sign(br)
-        br = abs(br)
+        d, br = directions(ifmap[ifmap[:, 0] == ifidx[k], 1])
         results['if']['P'][k] = sum( d * results['branch'][br, PF] )
 
     if 'mu' not in results['if']:
-- 
2.43.0


From 33f58b77450b7b80e33dd35140f4d5cf807bdba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:26 +0000
Subject: [PATCH 080/107] fix: interface limits listed in any order, and their
 report

---
 pypower/toggle_iflims.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pypower/toggle_iflims.py b/pypower/toggle_iflims.py
index 1145b26..8f039b1 100644
--- a/pypower/toggle_iflims.py
+++ b/pypower/toggle_iflims.py
@@ -9,7 +9,7 @@ from sys import stderr
 
 from pypower.savecase import print_vector, print_matrix
 
-from numpy import array, zeros, arange, unique, signbit, where
+from numpy import array, zeros, arange, signbit, where
 
 from scipy.sparse import lil_matrix, csr_matrix as sparse
 
@@ -132,7 +132,7 @@ def userfcn_iflims_formulation(om, *args):
     n = Bf.shape[1]                    ## dim of theta
 
     ## form constraints
-    ifidx = unique(iflims[:, 0])   ## interface number list
+    ifidx = iflims[:, 0]           ## interface number list
     nifs = len(ifidx)              ## number of interfaces
     Aif = lil_matrix((nifs, n))
     lif = zeros(nifs)
@@ -175,7 +175,7 @@ def userfcn_iflims_int2ext(results, *args):
     results['if']['map'] = results['order']['ext']['ifmap']
 
     ##-----  results post-processing  -----
-    ifidx = unique(iflims[:, 0])   ## interface number list
+    ifidx = iflims[:, 0]        ## interface number list
     nifs = len(ifidx)           ## number of interfaces
     results['if']['P'] = zeros(nifs)
     for k in range(nifs):
@@ -209,10 +209,9 @@ def userfcn_iflims_printpf(results, fd, ppopt, *args):
         fd.write('\n Interface  Shadow Prc  Lower Lim      Flow      Upper Lim   Shadow Prc')
         fd.write('\n     #        ($/MW)       (MW)        (MW)        (MW)       ($/MW)   ')
         fd.write('\n----------  ----------  ----------  ----------  ----------  -----------')
-        ifidx = unique(iflims[:, 0])   ## interface number list
-        nifs = len(ifidx)           ## number of interfaces
+        nifs = iflims.shape[0]      ## number of interfaces
         for k in range(nifs):
-            fd.write('\n%6d ', iflims(k, 1))
+            fd.write('\n%6d ' % iflims[k, 0])
             if results['if']['mu']['l'][k] > ptol:
                 fd.write('%14.3f' % results['if']['mu']['l'][k])
             else:
-- 
2.43.0


From 48d98de17cea322711c675cd991eef96ebf04d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:05 +0000
Subject: [PATCH 081/107] fix: power flow with interface limits switched on

---
 pypower/toggle_iflims.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pypower/toggle_iflims.py b/pypower/toggle_iflims.py
index 8f039b1..c9e6762 100644
--- a/pypower/toggle_iflims.py
+++ b/pypower/toggle_iflims.py
@@ -175,6 +175,9 @@ def userfcn_iflims_int2ext(results, *args):
     results['if']['map'] = results['order']['ext']['ifmap']
 
     ##-----  results post-processing  -----
+    if 'om' not in results:     ## not an OPF
+        return results
+
     ifidx = iflims[:, 0]        ## interface number list
     nifs = len(ifidx)           ## number of interfaces
     results['if']['P'] = zeros(nifs)
@@ -201,7 +204,7 @@ def userfcn_iflims_printpf(results, fd, ppopt, *args):
     # ctol = ppopt['OPF_VIOLATION']   ## constraint violation tolerance
     ptol = 1e-6        ## tolerance for displaying shadow prices
 
-    if OUT_ALL != 0:
+    if OUT_ALL != 0 and 'P' in results['if']:
         iflims = results['if']['lims']
         fd.write('\n================================================================================')
         fd.write('\n|     Interface Flow Limits                                                    |')
-- 
2.43.0


From fdc4402883f0127ff284ac52d336644d6b38da6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:24 +0000
Subject: [PATCH 082/107] fix: DC lines on the case's own buses

---
 pypower/toggle_dcline.py | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/pypower/toggle_dcline.py b/pypower/toggle_dcline.py
index 8b2e907..ce900e1 100644
--- a/pypower/toggle_dcline.py
+++ b/pypower/toggle_dcline.py
@@ -4,7 +4,7 @@
 
 from math import inf
 
-from numpy import array, ones, zeros, r_, c_, concatenate, shape
+from numpy import array, ones, zeros, r_, c_, concatenate, isin
 from numpy import flatnonzero as find
 
 from scipy.sparse import spdiags, hstack, vstack, csr_matrix as sparse
@@ -111,27 +111,29 @@ def userfcn_dcline_ext2int(ppc, args):
         havecost = False
 
     ## save version with external indexing
-    ppc['order']['ext']['dcline'] = ppc['dcline']              ## external indexing
+    o = ppc['order']
+    o['ext']['dcline'] = ppc['dcline'].astype(float)           ## external indexing
     if havecost:
-        ppc['order']['ext']['dclinecost'] = ppc['dclinecost']  ## external indexing
+        o['ext']['dclinecost'] = ppc['dclinecost']             ## external indexing
 
-    ppc['order']['ext']['status']  = {}
     ## work with only in-service DC lines
-    ppc['order']['ext']['status']['on']  = find(ppc['dcline'][:, c['BR_STATUS']] >  0)
-    ppc['order']['ext']['status']['off'] = find(ppc['dcline'][:, c['BR_STATUS']] <= 0)
+    dc = o['ext']['dcline']
+    on = ( (dc[:, c['BR_STATUS']] > 0) &                       ## on and connected
+        isin(dc[:, c['F_BUS']], o['bus']['i2e']) &
+        isin(dc[:, c['T_BUS']], o['bus']['i2e']) )
+    o['dcline'] = {'status': {'on': find(on), 'off': find(~on)}}
 
     ## remove out-of-service DC lines
-    dc = ppc['dcline'][ppc['order']['ext']['status']['on'], :] ## only in-service DC lines
+    dc = dc[on, :]             ## only in-service DC lines
     if havecost:
-        dcc = ppc['dclinecost'][ppc['order']['ext']['status']['on'], :]    ## only in-service DC lines
+        dcc = ppc['dclinecost'][on, :]     ## only in-service DC lines
         ppc['dclinecost'] = dcc
 
     ndc = dc.shape[0]          ## number of in-service DC lines
-    o = ppc['order']
 
     ##-----  convert stuff to internal indexing  -----
-    dc[:, c['F_BUS']] = o['bus']['e2i'][dc[:, c['F_BUS']]]
-    dc[:, c['T_BUS']] = o['bus']['e2i'][dc[:, c['T_BUS']]]
+    dc[:, c['F_BUS']] = o['bus']['e2i'][dc[:, c['F_BUS']].astype(int)]
+    dc[:, c['T_BUS']] = o['bus']['e2i'][dc[:, c['T_BUS']].astype(int)]
     ppc['dcline'] = dc
 
     ##-----  create gens to represent DC line terminals  -----
@@ -182,8 +184,8 @@ def userfcn_dcline_ext2int(ppc, args):
 
     ## set all terminal buses to PV (except ref bus)
     refbus = find(ppc['bus'][:, BUS_TYPE] == REF)
-    ppc['bus'][dc[:, c['F_BUS']], BUS_TYPE] = PV
-    ppc['bus'][dc[:, c['T_BUS']], BUS_TYPE] = PV
+    ppc['bus'][dc[:, c['F_BUS']].astype(int), BUS_TYPE] = PV
+    ppc['bus'][dc[:, c['T_BUS']].astype(int), BUS_TYPE] = PV
     ppc['bus'][refbus, BUS_TYPE] = REF
 
     ## append dummy gens
@@ -266,6 +268,8 @@ def userfcn_dcline_formulation(om, args):
     dc = ppc['dcline']
     ndc = dc.shape[0]              ## number of in-service DC lines
     ng  = ppc['gen'].shape[0] - 2 * ndc  ## number of original gens/disp loads
+    if ndc == 0:
+        return om
 
     ## constraints
     nL0 = -dc[:, c['LOSS0']] / ppc['baseMVA']
@@ -294,7 +298,7 @@ def userfcn_dcline_int2ext(results, args):
 
     ## initialize some things
     o = results['order']
-    k = find(o['ext']['dcline'][:, c['BR_STATUS']])
+    k = o['dcline']['status']['on']
     ndc = len(k)                    ## number of in-service DC lines
     ng  = results['gen'].shape[0] - 2*ndc; ## number of original gens/disp loads
 
@@ -306,7 +310,8 @@ def userfcn_dcline_int2ext(results, args):
     #results['gen']     = results['gen'][:ng + 1, :]
     #results['gencost'] = results['gencost'][:ng + 1, :]
     results['gen']     = results['gen'][:ng, :]
-    results['gencost'] = results['gencost'][:ng, :]
+    if 'gencost' in results:
+        results['gencost'] = results['gencost'][:ng, :]
 
     ## get the solved flows
     results['dcline'][:, c['PF']] = -fg[:, PG]
-- 
2.43.0


From 82a32bf93aad551ecf5e5e0b58aa2cc9d6e1c955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:24 +0000
Subject: [PATCH 083/107] fix: costs of DC lines

---
 pypower/toggle_dcline.py | 63 ++++++++++++++++++++--------------------
 1 file changed, 32 insertions(+), 31 deletions(-)

diff --git a/pypower/toggle_dcline.py b/pypower/toggle_dcline.py
index ce900e1..38a0adf 100644
--- a/pypower/toggle_dcline.py
+++ b/pypower/toggle_dcline.py
@@ -4,7 +4,7 @@
 
 from math import inf
 
-from numpy import array, ones, zeros, r_, c_, concatenate, isin
+from numpy import arange, ones, zeros, r_, c_, isin
 from numpy import flatnonzero as find
 
 from scipy.sparse import spdiags, hstack, vstack, csr_matrix as sparse
@@ -21,7 +21,7 @@ from pypower.idx_gen import MBASE, GEN_STATUS, PMIN, PMAX, GEN_BUS, PG, QG, \
     VG, QMIN, QMAX, MU_QMIN, MU_PMAX, MU_PMIN, MU_QMAX
 
 from pypower.idx_bus import BUS_TYPE, REF, PV
-from pypower.idx_cost import MODEL, POLYNOMIAL, NCOST
+from pypower.idx_cost import MODEL, POLYNOMIAL, NCOST, COST
 
 
 def toggle_dcline(ppc, on_off):
@@ -189,50 +189,47 @@ def userfcn_dcline_ext2int(ppc, args):
     ppc['bus'][refbus, BUS_TYPE] = REF
 
     ## append dummy gens
+    ng = ppc['gen'].shape[0]        ## number of original gens/disp loads
     ppc['gen'] = r_[ppc['gen'], fg, tg]
 
     ## gencost
     if 'gencost' in ppc and len(ppc['gencost']) > 0:
-        ngcr, ngcc = ppc['gencost'].shape   ## dimensions of gencost
+        gencost = ppc['gencost']
+        ngcr, ngcc = gencost.shape         ## dimensions of gencost
+        ccc = ngcc                         ## number of columns in new gencost
         if havecost:         ## user has provided costs
-            ndccc = dcc.shape[1]           ## number of dclinecost columns
-            ccc = max(r_[ngcc, ndccc])     ## number of columns in new gencost
+            ccc = max(ngcc, dcc.shape[1])
             if ccc > ngcc:                 ## right zero-pad gencost
-                ppc.gencost = c_[ppc['gencost'], zeros(ngcr, ccc-ngcc)]
+                gencost = c_[gencost, zeros((ngcr, ccc - ngcc))]
 
-            ## flip function across vertical axis and append to gencost
+        ## use zero cost as default
+        zgc = ones((ndc, 1)) * r_[2, 0, 0, 2, zeros(ccc - 4)]
+        fgc = zgc.copy()
+        if havecost:
+            ## flip function across vertical axis
             ## (PF for DC line = -PG for dummy gen at "from" bus)
+            fgc[:, :] = 0
+            fgc[:, :dcc.shape[1]] = dcc
             for k in range(ndc):
+                nc = int(dcc[k, NCOST])
                 if dcc[k, MODEL] == POLYNOMIAL:
-                    nc = dcc[k, NCOST]
-                    temp = dcc[k, NCOST + range(nc + 1)]
                     ## flip sign on coefficients of odd terms
                     ## (every other starting with linear term,
                     ##  that is, the next to last one)
-#                    temp((nc-1):-2:1) = -temp((nc-1):-2:1)
-                    temp[range(nc, 0, -2)] = -temp[range(nc, 0, -2)]
+                    odd = arange(COST + nc - 2, COST - 1, -2)
+                    fgc[k, odd] = -fgc[k, odd]
                 else:  ## dcc(k, MODEL) == PW_LINEAR
-                    nc = dcc[k, NCOST]
-                    temp = dcc[k, NCOST + range(2*nc + 1)]
                     ## switch sign on horizontal coordinate
-                    xx = -temp[range(0, 2 * nc + 1, 2)]
-                    yy =  temp[range(1, 2 * nc + 1, 2)]
-                    temp[range(0, 2*nc + 1, 2)] = xx[-1::-1]
-                    temp[range(1, 2*nc + 1, 2)] = yy[-1::-1]
+                    xx = -fgc[k, COST:COST + 2 * nc:2]
+                    yy =  fgc[k, COST + 1:COST + 2 * nc:2].copy()
+                    fgc[k, COST:COST + 2 * nc:2] = xx[::-1]
+                    fgc[k, COST + 1:COST + 2 * nc:2] = yy[::-1]
 
-                padding = zeros(ccc - NCOST - len(temp))
-                gck = c_[dcc[k, :NCOST + 1], temp, padding]
-
-                ## append to gencost
-                ppc['gencost'] = r_[ppc['gencost'], gck]
-
-            ## use zero cost on "to" end gen
-            tgc = ones((ndc, 1)) * [2, 0, 0, 2, zeros(ccc-4)]
-            ppc['gencost'] = c_[ppc['gencost'], tgc]
-        else:
-            ## use zero cost as default
-            dcgc = ones((2 * ndc, 1)) * concatenate([array([2, 0, 0, 2]), zeros(ngcc-4)])
-            ppc['gencost'] = r_[ppc['gencost'], dcgc]
+        ## append to gencost, zero cost on "to" end gens
+        pcost, qcost = gencost[:ng, :], gencost[ng:, :]
+        ppc['gencost'] = r_[pcost, fgc, zgc]
+        if len(qcost) > 0:                 ## Qg cost included, too
+            ppc['gencost'] = r_[ppc['gencost'], qcost, zgc, zgc]
 
     return ppc
 
@@ -311,7 +308,11 @@ def userfcn_dcline_int2ext(results, args):
     #results['gencost'] = results['gencost'][:ng + 1, :]
     results['gen']     = results['gen'][:ng, :]
     if 'gencost' in results:
-        results['gencost'] = results['gencost'][:ng, :]
+        gencost = results['gencost']
+        results['gencost'] = gencost[:ng, :]
+        if gencost.shape[0] == 2 * (ng + 2 * ndc):   ## Qg cost included, too
+            results['gencost'] = r_[gencost[:ng, :],
+                                    gencost[ng + 2 * ndc:2 * ng + 2 * ndc, :]]
 
     ## get the solved flows
     results['dcline'][:, c['PF']] = -fg[:, PG]
-- 
2.43.0


From 65309b7817aca7c8f52084b1007c93f8e82c54e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:24 +0000
Subject: [PATCH 084/107] fix: multipliers of DC lines

---
 pypower/toggle_dcline.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pypower/toggle_dcline.py b/pypower/toggle_dcline.py
index 38a0adf..2ad7f16 100644
--- a/pypower/toggle_dcline.py
+++ b/pypower/toggle_dcline.py
@@ -321,8 +321,9 @@ def userfcn_dcline_int2ext(results, args):
     results['dcline'][:, c['QT']] =  tg[:, QG]
     results['dcline'][:, c['VF']] =  fg[:, VG]
     results['dcline'][:, c['VT']] =  tg[:, VG]
-    if fg.shape[1] >= MU_QMIN:
-        results['dcline'] = c_[results['dcline'], zeros((ndc, 6))]
+    havemu = fg.shape[1] > MU_QMIN
+    if havemu:
+        results['dcline'] = addmu(results['dcline'])
         results['dcline'][:, c['MU_PMIN'] ] = fg[:, MU_PMAX] + tg[:, MU_PMIN]
         results['dcline'][:, c['MU_PMAX'] ] = fg[:, MU_PMIN] + tg[:, MU_PMAX]
         results['dcline'][:, c['MU_QMINF']] = fg[:, MU_QMIN]
@@ -335,8 +336,8 @@ def userfcn_dcline_int2ext(results, args):
     results['order']['int']['dcline'] = results['dcline']  ## save internal version
     ## copy results to external version
     o['ext']['dcline'][k, c['PF']:c['VT'] + 1] = results['dcline'][:, c['PF']:c['VT'] + 1]
-    if results['dcline'].shape[1] == c['MU_QMAXT'] + 1:
-        o['ext']['dcline'] = c_[o['ext']['dcline'], zeros((ndc, 6))]
+    if havemu:
+        o['ext']['dcline'] = addmu(o['ext']['dcline'])
         o['ext']['dcline'][k, c['MU_PMIN']:c['MU_QMAXT'] + 1] = \
                 results['dcline'][:, c['MU_PMIN']:c['MU_QMAXT'] + 1]
 
@@ -345,6 +346,13 @@ def userfcn_dcline_int2ext(results, args):
     return results
 
 
+def addmu(dc):
+    """Returns DC lines with zeros in the columns of the multipliers.
+    """
+    c = idx_dcline.c
+    return c_[dc[:, :c['MU_PMIN']], zeros((dc.shape[0], 6))]
+
+
 ##-----  printpf  ------------------------------------------------------
 def userfcn_dcline_printpf(results, fd, ppopt, args):
     """This is the 'printpf' stage userfcn callback that pretty-prints the
-- 
2.43.0


From 3520052966edf47c25e7696832ed3dc8c25b86f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:24 +0000
Subject: [PATCH 085/107] fix: report DC lines that are out of service

---
 pypower/toggle_dcline.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pypower/toggle_dcline.py b/pypower/toggle_dcline.py
index 2ad7f16..86de87c 100644
--- a/pypower/toggle_dcline.py
+++ b/pypower/toggle_dcline.py
@@ -382,6 +382,8 @@ def userfcn_dcline_printpf(results, fd, ppopt, args):
 
     ##-----  print results  -----
     dc = results['dcline']
+    if dc.shape[1] <= c['MU_QMAXT']:    ## not an OPF
+        dc = addmu(dc)
     ndc = dc.shape[0]
     kk = find(dc[:, c['BR_STATUS']] != 0)
     if OUT_BRANCH:
@@ -399,7 +401,7 @@ def userfcn_dcline_printpf(results, fd, ppopt, args):
                 loss = loss + dc[k, c['PF']] - dc[k, c['PT']]
             else:
                 fd.write('\n%5d%8d%8d%11s%11s%11s%11s%11s' %
-                            (k, dc[k, c['F_BUS']:c['T_BUS'] + 1], '-  ', '-  ', '-  ', '-  ', '-  '))
+                            (k, dc[k, c['F_BUS']], dc[k, c['T_BUS']], '-  ', '-  ', '-  ', '-  ', '-  '))
 
         fd.write('\n                                              ---------')
         fd.write('\n                                     Total:{0:11.2f}\n'.format(loss))
@@ -436,7 +438,7 @@ def userfcn_dcline_printpf(results, fd, ppopt, args):
 
                 else:
                     fd.write('\n%5d%8d%8d%11s%11s%11s%11s%11s' %
-                                (k, dc[k, c['F_BUS']:c['T_BUS'] + 1], '-  ', '-  ', '-  ', '-  ', '-  '))
+                                (k, dc[k, c['F_BUS']], dc[k, c['T_BUS']], '-  ', '-  ', '-  ', '-  ', '-  '))
 
         fd.write('\n')
 
-- 
2.43.0


From 7d03951bb75f978afd5bd5fbe91388c0e3ab4f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:24 +0000
Subject: [PATCH 086/107] fix: warn of negative loss terms of DC lines

---
 pypower/toggle_dcline.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pypower/toggle_dcline.py b/pypower/toggle_dcline.py
index 86de87c..28a8c5d 100644
--- a/pypower/toggle_dcline.py
+++ b/pypower/toggle_dcline.py
@@ -59,7 +59,7 @@ def toggle_dcline(ppc, on_off):
 
         if 'dcline' not in ppc or ppc['dcline'].shape[1] < c["LOSS1"] + 1:
             raise ValueError('toggle_dcline: case must contain a '
-                    '\'dcline\' field, an ndc x %d matrix.', c["LOSS1"])
+                    '\'dcline\' field, an ndc x %d matrix.' % (c["LOSS1"] + 1))
 
         if 'dclinecost' in ppc and ppc['dcline'].shape[0] != ppc['dclinecost'].shape[0]:
             raise ValueError('toggle_dcline: number of rows in \'dcline\''
@@ -67,10 +67,10 @@ def toggle_dcline(ppc, on_off):
                 (ppc['dcline'].shape[0], ppc['dclinecost'].shape[0]))
 
         k = find(ppc['dcline'][:, c["LOSS1"]] < 0)
-        if len(k) > 0:
+        for i in k:
             warn('toggle_dcline: linear loss term is negative for DC line '
                    'from bus %d to %d\n' %
-                  ppc['dcline'][k, c['F_BUS']:c['T_BUS'] + 1].T)
+                  tuple(ppc['dcline'][i, c['F_BUS']:c['T_BUS'] + 1]))
 
         ## add callback functions
         ## note: assumes all necessary data included in 1st arg (ppc, om, results)
-- 
2.43.0


From 22b5e1a60c705fe41a253bba174e34237ac00348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:37 +0000
Subject: [PATCH 087/107] fix: save the costs of DC lines

---
 pypower/toggle_dcline.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pypower/toggle_dcline.py b/pypower/toggle_dcline.py
index 28a8c5d..942de5d 100644
--- a/pypower/toggle_dcline.py
+++ b/pypower/toggle_dcline.py
@@ -464,5 +464,8 @@ def userfcn_dcline_savecase(ppc, fd, prefix, args):
         fd.write(' muPmin muPmax muQminF muQmaxF muQminT muQmaxT')
     fd.write('\n')
     print_matrix(fd, "%s['dcline']" % prefix, ppc['dcline'], indent)
+    if 'dclinecost' in ppc:
+        fd.write('\n%s##-----  DC Line Cost Data  -----##\n' % indent)
+        print_matrix(fd, "%s['dclinecost']" % prefix, ppc['dclinecost'], indent)
 
     return ppc
-- 
2.43.0


From cd5d5572d9d85edf6a92793ebc8f2f4e7552ffb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:09 +0000
Subject: [PATCH 088/107] fix: results keep the costs of all DC lines

---
 pypower/toggle_dcline.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pypower/toggle_dcline.py b/pypower/toggle_dcline.py
index 942de5d..b221eda 100644
--- a/pypower/toggle_dcline.py
+++ b/pypower/toggle_dcline.py
@@ -342,6 +342,8 @@ def userfcn_dcline_int2ext(results, args):
                 results['dcline'][:, c['MU_PMIN']:c['MU_QMAXT'] + 1]
 
     results['dcline'] = o['ext']['dcline']            ## use external version
+    if 'dclinecost' in results:
+        results['dclinecost'] = o['ext']['dclinecost']
 
     return results
 
-- 
2.43.0


From cf350ef3f3cd53f7ae64d87269bee10937990fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:46 +0000
Subject: [PATCH 089/107] fix: optimal power flow with DC lines

---
 pypower/toggle_dcline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/toggle_dcline.py b/pypower/toggle_dcline.py
index b221eda..204e3e2 100644
--- a/pypower/toggle_dcline.py
+++ b/pypower/toggle_dcline.py
@@ -274,7 +274,7 @@ def userfcn_dcline_formulation(om, args):
     Adc = hstack([sparse((ndc, ng)), spdiags(1-L1, 0, ndc, ndc), speye(ndc, ndc)], format="csr")
 
     ## add them to the model
-    om = om.add_constraints('dcline', Adc, nL0, nL0, ['Pg'])
+    om.add_constraints('dcline', Adc, nL0, nL0, ['Pg'])
 
     return om
 
-- 
2.43.0


From 0a488e9dfccf9d62dc25d48141866b6dd54f703a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:13 +0000
Subject: [PATCH 090/107] fix: DC OPF refuses costs it cannot handle

---
 pypower/dcopf_solver.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pypower/dcopf_solver.py b/pypower/dcopf_solver.py
index b37d55a..5a11f92 100644
--- a/pypower/dcopf_solver.py
+++ b/pypower/dcopf_solver.py
@@ -5,8 +5,6 @@
 """Solves a DC optimal power flow.
 """
 
-from sys import stderr
-
 from copy import deepcopy
 
 from math import inf
@@ -133,9 +131,9 @@ def dcopf_solver(om, ppopt, out_opt=None):
 
     ## quadratic costs
     npol = len(ipol)
-    if any(find(gencost[ipol, NCOST] > 3)):
-        stderr.write('DC opf cannot handle polynomial costs with higher '
-                     'than quadratic order.\n')
+    if any(gencost[ipol, NCOST] > 3):
+        raise ValueError('dcopf_solver: DC opf cannot handle polynomial '
+                         'costs with higher than quadratic order.')
     iqdr = find(gencost[ipol, NCOST] == 3)
     ilin = find(gencost[ipol, NCOST] == 2)
     icon = find(gencost[ipol, NCOST] == 1)
-- 
2.43.0


From beb7656a89e68e81d078b3ede5a471287e581a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:08 +0000
Subject: [PATCH 091/107] fix: continuation power flow with current SciPy

---
 pypower/cpf_corrector.py | 6 +++---
 pypower/cpf_p.py         | 6 +++---
 pypower/cpf_predictor.py | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pypower/cpf_corrector.py b/pypower/cpf_corrector.py
index 9043957..7192986 100644
--- a/pypower/cpf_corrector.py
+++ b/pypower/cpf_corrector.py
@@ -4,7 +4,7 @@ full Newton method with selected parameterization scheme.
 
 from numpy import r_, angle, conj, linalg, inf, array, exp
 
-from scipy.sparse import vstack, hstack
+from scipy.sparse import csr_matrix, hstack, vstack
 
 from pypower.ppoption import ppoption
 from pypower.cpf_p import cpf_p
@@ -92,7 +92,7 @@ def cpf_corrector(Ybus, Sbus, V0, ref, pv, pq,
         # augment J with real/imag -Sxfr and z^T
         J = vstack([
             hstack([J, dF_dlam]),
-            hstack([dP_dV, dP_dlam])
+            csr_matrix(r_[dP_dV, dP_dlam])
         ], format="csr")
 
         # compute update step
@@ -109,7 +109,7 @@ def cpf_corrector(Ybus, Sbus, V0, ref, pv, pq,
         Va = angle(V)
 
         # update lambda
-        lam = lam + dx[j7:j8]
+        lam = lam + dx[j7]
 
         # evalute F(x, lam)
         mis = V * conj(Ybus.dot(V)) - Sbus - lam*Sxfr
diff --git a/pypower/cpf_p.py b/pypower/cpf_p.py
index 3bf3a6d..5a89a91 100644
--- a/pypower/cpf_p.py
+++ b/pypower/cpf_p.py
@@ -1,7 +1,7 @@
 '''Computes the value of the CPF parameterization function.
 '''
 
-from numpy import r_, angle, square, dot, array
+from numpy import r_, angle, square, dot
 
 
 def cpf_p(parameterization, step, z, V, lam, Vprv, lamprv, pv, pq):
@@ -30,7 +30,7 @@ def cpf_p(parameterization, step, z, V, lam, Vprv, lamprv, pv, pq):
         Vm = abs(V)
         Vaprv = angle(Vprv)
         Vmprv = abs(Vprv)
-        P = dot(z[r_[pvpq, nb+pq, 2*nb]].reshape((1, -1)), array(r_[Va[pvpq],
-                                                                      Vm[pq], lam] - r_[Vaprv[pvpq], Vmprv[pq], lamprv]).T) - step
+        P = dot(z[r_[pvpq, nb+pq, 2*nb]], r_[Va[pvpq], Vm[pq], lam] -
+                r_[Vaprv[pvpq], Vmprv[pq], lamprv]) - step
 
     return P
diff --git a/pypower/cpf_predictor.py b/pypower/cpf_predictor.py
index ef33a8f..caa557c 100644
--- a/pypower/cpf_predictor.py
+++ b/pypower/cpf_predictor.py
@@ -3,7 +3,7 @@
 
 from numpy import r_, array, angle, zeros, linalg, exp
 
-from scipy.sparse import hstack, vstack
+from scipy.sparse import csr_matrix, hstack, vstack
 
 from pypower.dSbus_dV import dSbus_dV
 from pypower.cpf_p_jac import cpf_p_jac
@@ -37,7 +37,7 @@ def cpf_predictor(V, lam, Ybus, Sxfr, pv, pq,
     # linear operator for computing the tangent predictor
     J = vstack([
         hstack([J, dF_dlam]),
-        hstack([dP_dV, dP_dlam])
+        csr_matrix(r_[dP_dV, dP_dlam])
     ], format="csr")
 
     Vaprv = angle(V)
-- 
2.43.0


From 10422a404ebee9d801c86a93947133c32896bb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:44 +0000
Subject: [PATCH 092/107] fix: room for all flows in continuation power flow

---
 pypower/runcpf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypower/runcpf.py b/pypower/runcpf.py
index 1e40a94..4525c81 100644
--- a/pypower/runcpf.py
+++ b/pypower/runcpf.py
@@ -65,7 +65,7 @@ def runcpf(basecasedata=None, targetcasedata=None, ppopt=None, fname='', solvedc
     nb = ppcbase["bus"].shape[0]
 
     # add zero columns to branch for flows if needed
-    if ppcbase["branch"].shape[1] < QT:
+    if ppcbase["branch"].shape[1] < QT + 1:
         ppcbase["branch"] = c_[ppcbase["branch"],
                                zeros((ppcbase["branch"].shape[0],
                                       QT - ppcbase["branch"].shape[1] + 1))]
@@ -86,7 +86,7 @@ def runcpf(basecasedata=None, targetcasedata=None, ppopt=None, fname='', solvedc
     ppctarget = loadcase(targetcasedata)
 
     # add zero columns to branch for flows if needed
-    if ppctarget["branch"].shape[1] < QT:
+    if ppctarget["branch"].shape[1] < QT + 1:
         ppctarget["branch"] = c_[ppctarget["branch"],
                                  zeros((ppctarget["branch"].shape[0],
                                         QT - ppctarget["branch"].shape[1] + 1))]
-- 
2.43.0


From 6bffb105883ceda1094612be8d6a61546c9c659e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:44 +0000
Subject: [PATCH 093/107] fix: continuation power flow needs a solved base case

---
 pypower/runcpf.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pypower/runcpf.py b/pypower/runcpf.py
index 4525c81..9e77f46 100644
--- a/pypower/runcpf.py
+++ b/pypower/runcpf.py
@@ -167,13 +167,17 @@ def runcpf(basecasedata=None, targetcasedata=None, ppopt=None, fname='', solvedc
         cb_state, _ = callbacks[k](cont_steps, V, lam, V, lam,
                                    cb_data, cb_state, cb_args)
 
-    if linalg.norm(Sxfr) == 0:
+    V0, lam0, i = V, lam, iterations
+    if not success:
+        if verbose:
+            print('the power flow of the base case did not converge\n')
+
+        continuation = 0
+    elif linalg.norm(Sxfr) == 0:
         if verbose:
             print('base case and target case have identical load and generation\n')
 
         continuation = 0
-        V0 = V
-        lam0 = lam
 
     # tangent predictor z = [dx;dlam]
     z = zeros(2*len(V)+1)
-- 
2.43.0


From 832f327cb469a9e366f57571cc97ef1edec908b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:44 +0000
Subject: [PATCH 094/107] fix: record of a continuation power flow without
 steps

---
 pypower/cpf_callbacks.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pypower/cpf_callbacks.py b/pypower/cpf_callbacks.py
index d657669..2e3e026 100644
--- a/pypower/cpf_callbacks.py
+++ b/pypower/cpf_callbacks.py
@@ -62,10 +62,10 @@ def cpf_default_callback(k, V_c, lam_c, V_p, lam_p, cb_data, cb_state, cb_args,
     elif k == 0:
         # initialize state
         cb_state = {
-            "V_p": V_p,
-            "lam_p": lam_p,
-            "V_c": V_c,
-            "lam_c": lam_c,
+            "V_p": c_[V_p],
+            "lam_p": r_[lam_p],
+            "V_c": c_[V_c],
+            "lam_c": r_[lam_c],
             "iterations": 0
         }
 
-- 
2.43.0


From 690d284f4fd348979d4e8408ceb1cf3c864217d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:44 +0000
Subject: [PATCH 095/107] fix: continuation power flow stops where asked

---
 pypower/runcpf.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/pypower/runcpf.py b/pypower/runcpf.py
index 9e77f46..3c377aa 100644
--- a/pypower/runcpf.py
+++ b/pypower/runcpf.py
@@ -183,6 +183,19 @@ def runcpf(basecasedata=None, targetcasedata=None, ppopt=None, fname='', solvedc
     z = zeros(2*len(V)+1)
     z[-1] = 1.0
     while continuation:
+        # the step must not pass the point to stop at
+        if isinstance(ppopt["CPF_STOP_AT"], str):
+            if ppopt["CPF_STOP_AT"].upper() == "FULL" and \
+                    lam < lamprv and lam - step < 0:    # next step will overshoot
+                step = lam      # modify step-size
+                parameterization = 1    # change to natural parameterization
+                adapt_step = False      # disable step-adaptivity
+        # will reach desired lambda in next step
+        elif lam + step > ppopt["CPF_STOP_AT"]:
+            step = ppopt["CPF_STOP_AT"] - lam   # modify step-size
+            parameterization = 1    # change to natural parameterization
+            adapt_step = False      # disable step-adaptivity
+
         cont_steps = cont_steps + 1
         # prediction for next step
         V0, lam0, z = cpf_predictor(V, lam, Ybus, Sxfr, pv, pq, step, z,
@@ -221,10 +234,6 @@ def runcpf(basecasedata=None, targetcasedata=None, ppopt=None, fname='', solvedc
                         print(
                             '\nTraced full continuation curve in %d continuation steps\n' % cont_steps)
                     continuation = 0
-                elif lam < lamprv and lam - step < 0:    # next step will overshoot
-                    step = lam      # modify step-size
-                    parameterization = 1    # change to natural parameterization
-                    adapt_step = False      # disable step-adaptivity
 
             else:   # == 'NOSE'
                 if lam < lamprv:    # reached the nose point
@@ -244,11 +253,6 @@ def runcpf(basecasedata=None, targetcasedata=None, ppopt=None, fname='', solvedc
                     print('\nReached desired lambda %3.2f in %d continuation steps\n' % (
                         ppopt["CPF_STOP_AT"], cont_steps))
                 continuation = 0
-            # will reach desired lambda in next step
-            elif lam + step > ppopt["CPF_STOP_AT"]:
-                step = ppopt["CPF_STOP_AT"] - lam   # modify step-size
-                parameterization = 1    # change to natural parameterization
-                adapt_step = False      # disable step-adaptivity
 
         if adapt_step and continuation:
             pvpq = r_[pv, pq]
-- 
2.43.0


From 0ec9f015d60ddc7cc89d5c6ec41e9e70ca88fde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:13 +0000
Subject: [PATCH 096/107] fix: continuation power flow across 180 degrees

---
 pypower/cpf_p.py     | 16 +++++++---------
 pypower/cpf_p_jac.py |  8 +++-----
 pypower/runcpf.py    |  6 +++---
 3 files changed, 13 insertions(+), 17 deletions(-)

diff --git a/pypower/cpf_p.py b/pypower/cpf_p.py
index 5a89a91..ec48a1e 100644
--- a/pypower/cpf_p.py
+++ b/pypower/cpf_p.py
@@ -1,7 +1,7 @@
 '''Computes the value of the CPF parameterization function.
 '''
 
-from numpy import r_, angle, square, dot
+from numpy import r_, angle, conj, square, dot
 
 
 def cpf_p(parameterization, step, z, V, lam, Vprv, lamprv, pv, pq):
@@ -15,22 +15,20 @@ def cpf_p(parameterization, step, z, V, lam, Vprv, lamprv, pv, pq):
     elif parameterization == 2:
         pvpq = r_[pv, pq]
 
-        Va = angle(V)
+        dVa = angle(V * conj(Vprv))     # also across +/- pi
         Vm = abs(V)
-        Vaprv = angle(Vprv)
         Vmprv = abs(Vprv)
-        P = sum(square(r_[Va[pvpq], Vm[pq], lam] -
-                       r_[Vaprv[pvpq], Vmprv[pq], lamprv])) - square(step)
+        P = sum(square(r_[dVa[pvpq], Vm[pq] - Vmprv[pq], lam - lamprv])) - \
+            square(step)
 
     elif parameterization == 3:
         pvpq = r_[pv, pq]
 
         nb = len(V)
-        Va = angle(V)
+        dVa = angle(V * conj(Vprv))     # also across +/- pi
         Vm = abs(V)
-        Vaprv = angle(Vprv)
         Vmprv = abs(Vprv)
-        P = dot(z[r_[pvpq, nb+pq, 2*nb]], r_[Va[pvpq], Vm[pq], lam] -
-                r_[Vaprv[pvpq], Vmprv[pq], lamprv]) - step
+        P = dot(z[r_[pvpq, nb+pq, 2*nb]],
+                r_[dVa[pvpq], Vm[pq] - Vmprv[pq], lam - lamprv]) - step
 
     return P
diff --git a/pypower/cpf_p_jac.py b/pypower/cpf_p_jac.py
index 025f819..0068ee7 100644
--- a/pypower/cpf_p_jac.py
+++ b/pypower/cpf_p_jac.py
@@ -1,7 +1,7 @@
 '''Computes partial derivatives of CPF parameterization function.
 '''
 
-from numpy import r_, zeros, angle
+from numpy import r_, zeros, angle, conj
 
 
 def cpf_p_jac(parameterization, z, V, lam, Vprv, lamprv, pv, pq):
@@ -17,12 +17,10 @@ def cpf_p_jac(parameterization, z, V, lam, Vprv, lamprv, pv, pq):
     elif parameterization == 2:
         pvpq = r_[pv, pq]
 
-        Va = angle(V)
+        dVa = angle(V * conj(Vprv))     # also across +/- pi
         Vm = abs(V)
-        Vaprv = angle(Vprv)
         Vmprv = abs(Vprv)
-        dP_dV = 2 * (r_[Va[pvpq], Vm[pq]] -
-                     r_[Vaprv[pvpq], Vmprv[pq]])
+        dP_dV = 2 * r_[dVa[pvpq], Vm[pq] - Vmprv[pq]]
         if lam == lamprv:
             dP_dlam = 1.0
         else:
diff --git a/pypower/runcpf.py b/pypower/runcpf.py
index 3c377aa..87af078 100644
--- a/pypower/runcpf.py
+++ b/pypower/runcpf.py
@@ -7,7 +7,7 @@ from os.path import dirname, join
 
 from time import time
 
-from numpy import c_, r_, ix_, zeros, pi, ones, exp, linalg, angle, inf, nan, full
+from numpy import c_, r_, ix_, zeros, pi, ones, exp, linalg, angle, conj, inf, nan, full
 from numpy import flatnonzero as find
 
 from pypower.bustypes import bustypes
@@ -257,8 +257,8 @@ def runcpf(basecasedata=None, targetcasedata=None, ppopt=None, fname='', solvedc
         if adapt_step and continuation:
             pvpq = r_[pv, pq]
             # Adapt stepsize
-            cpf_error = linalg.norm(r_[angle(V[pq]), abs(
-                V[pvpq]), lam] - r_[angle(V0[pq]), abs(V0[pvpq]), lam0], inf)
+            cpf_error = linalg.norm(r_[angle(V[pq] * conj(V0[pq])), abs(
+                V[pvpq]) - abs(V0[pvpq]), lam - lam0], inf)
             if cpf_error < ppopt["CPF_ERROR_TOL"]:
                 # Increase stepsize
                 step = step * ppopt["CPF_ERROR_TOL"] / cpf_error
-- 
2.43.0


From a4ef4ca736c516172c7869729f7d957333f79208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:25 +0000
Subject: [PATCH 097/107] fix: fairmax

---
 pypower/fairmax.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pypower/fairmax.py b/pypower/fairmax.py
index 3b27c06..eeb01d2 100644
--- a/pypower/fairmax.py
+++ b/pypower/fairmax.py
@@ -6,7 +6,7 @@
 """
 
 from random import random
-from numpy import nonzero, fix
+from numpy import flatnonzero as find
 
 
 def fairmax(x):
@@ -23,8 +23,8 @@ def fairmax(x):
     @author: Ray Zimmerman (PSERC Cornell)
     """
     val = max(x)                      ## find max value
-    i   = nonzero(x == val)           ## find all positions where this occurs
+    i   = find(x == val)              ## find all positions where this occurs
     n   = len(i)                      ## number of occurences
-    idx = i( fix(n * random()) + 1 )  ## select index randomly among occurances
+    idx = i[int(n * random())]        ## select index randomly among occurances
 
     return val, idx
-- 
2.43.0


From 822ce1aa42aab092e93f18402e003f7825352449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:26 +0000
Subject: [PATCH 098/107] fix: minimum generation above load in unit
 decommitment

---
 pypower/uopf.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/pypower/uopf.py b/pypower/uopf.py
index 7284644..fe5e622 100644
--- a/pypower/uopf.py
+++ b/pypower/uopf.py
@@ -9,7 +9,7 @@ from time import time
 
 from copy import deepcopy
 
-from numpy import flatnonzero as find
+from numpy import flatnonzero as find, any, isin
 
 from pypower.opf_args import opf_args2
 from pypower.ppoption import ppoption
@@ -18,8 +18,8 @@ from pypower.totcost import totcost
 from pypower.fairmax import fairmax
 from pypower.opf import opf
 
-from pypower.idx_bus import PD
-from pypower.idx_gen import GEN_STATUS, PG, QG, PMIN, MU_PMIN
+from pypower.idx_bus import BUS_I, BUS_TYPE, NONE, PD
+from pypower.idx_gen import GEN_BUS, GEN_STATUS, PG, QG, PMIN, MU_PMIN
 
 
 def uopf(*args):
@@ -54,12 +54,16 @@ def uopf(*args):
     ##-----  do combined unit commitment/optimal power flow  -----
 
     ## check for sum(Pmin) > total load, decommit as necessary
-    on   = find( (ppc["gen"][:, GEN_STATUS] > 0) & ~isload(ppc["gen"]) )   ## gens in service
-    onld = find( (ppc["gen"][:, GEN_STATUS] > 0) &  isload(ppc["gen"]) )   ## disp loads in serv
-    load_capacity = sum(ppc["bus"][:, PD]) - sum(ppc["gen"][onld, PMIN])   ## total load capacity
+    live = ppc["bus"][:, BUS_TYPE] != NONE            ## not isolated
+    conn = isin(ppc["gen"][:, GEN_BUS], ppc["bus"][live, BUS_I])
+    on   = find( (ppc["gen"][:, GEN_STATUS] > 0) & conn & ~isload(ppc["gen"]) )   ## gens in service
+    onld = find( (ppc["gen"][:, GEN_STATUS] > 0) & conn &  isload(ppc["gen"]) )   ## disp loads in serv
+    load_capacity = sum(ppc["bus"][live, PD]) - sum(ppc["gen"][onld, PMIN])   ## total load capacity
     Pmin = ppc["gen"][on, PMIN]
-    while sum(Pmin) > load_capacity:
+    while sum(Pmin) > load_capacity and any(Pmin > 0):
         ## shut down most expensive unit
+        on = on[Pmin > 0]             ## others do not help
+        Pmin = ppc["gen"][on, PMIN]
         avgPmincost = totcost(ppc["gencost"][on, :], Pmin) / Pmin
         _, i = fairmax(avgPmincost)   ## pick one with max avg cost at Pmin
         i = on[i]                     ## convert to generator index
@@ -71,7 +75,7 @@ def uopf(*args):
         ppc["gen"][i, [PG, QG, GEN_STATUS]] = 0
 
         ## update minimum gen capacity
-        on  = find( (ppc["gen"][:, GEN_STATUS] > 0) & ~isload(ppc["gen"]) )   ## gens in service
+        on  = find( (ppc["gen"][:, GEN_STATUS] > 0) & conn & ~isload(ppc["gen"]) )   ## gens in service
         Pmin = ppc["gen"][on, PMIN]
 
     ## run initial opf
-- 
2.43.0


From e2b6dbe2030777c72027491b3a15d64e779eaca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:35 +0000
Subject: [PATCH 099/107] fix: unit decommitment when not all units can run

---
 pypower/uopf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypower/uopf.py b/pypower/uopf.py
index fe5e622..b7c5806 100644
--- a/pypower/uopf.py
+++ b/pypower/uopf.py
@@ -109,7 +109,8 @@ def uopf(*args):
             results = opf(ppc, ppopt)
 
             ## something better?
-            if results['success'] and (results["f"] < results1["f"]):
+            if results['success'] and (not results1['success'] or
+                                       results["f"] < results1["f"]):
                 results1 = deepcopy(results)
                 k1 = k
                 done = False   ## make sure we check for further decommitment
-- 
2.43.0


From 47c04d8d5577a5f76041ffaf75fe87749e5300c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:21 +0000
Subject: [PATCH 100/107] fix: printpf of a results dict with ppopt as keyword
 ignored the options

---
 pypower/printpf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pypower/printpf.py b/pypower/printpf.py
index 47f9598..d86bdc1 100644
--- a/pypower/printpf.py
+++ b/pypower/printpf.py
@@ -61,10 +61,10 @@ def printpf(baseMVA, bus=None, gen=None, branch=None, f=None, success=None,
     if isinstance(baseMVA, dict):
         have_results_struct = 1
         results = baseMVA
-        if gen is None:
-            ppopt = ppoption()   ## use default options
-        else:
+        if gen is not None:
             ppopt = gen
+        elif ppopt is None:
+            ppopt = ppoption()   ## use default options
         if (ppopt['OUT_ALL'] == 0):
             return     ## nothin' to see here, bail out now
         if bus is None:
-- 
2.43.0


From e193e7b0379267e6c8747c04f2759fc7a93df37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:22 +0000
Subject: [PATCH 101/107] fix: opf: -u together with -r is an error

---
 pypower/main.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pypower/main.py b/pypower/main.py
index b4c5252..75bcd8e 100644
--- a/pypower/main.py
+++ b/pypower/main.py
@@ -186,6 +186,7 @@ def opf(args=sys.argv[1:]):
     if options.uopf:
         if options.w_res:
             stderr.write('uopf and opf_w_res are mutex\n')
+            sys.exit(2)
         r = runuopf(casedata, ppopt, fname, solvedcase)
     elif options.w_res:
         r = runopf_w_res(casedata, ppopt, fname, solvedcase)
-- 
2.43.0


From 1a8556f9b876ac5e84ea81cb9a9330f3580f5fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:13 +0000
Subject: [PATCH 102/107] fix: invalid algorithm codes raise ValueError

---
 pypower/opf_execute.py | 4 ++--
 pypower/runpf.py       | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pypower/opf_execute.py b/pypower/opf_execute.py
index 23e2afc..3ba6dab 100644
--- a/pypower/opf_execute.py
+++ b/pypower/opf_execute.py
@@ -5,7 +5,7 @@
 """Executes the OPF specified by an OPF model object.
 """
 
-from sys import stdout, stderr
+from sys import stdout
 
 from numpy import array, arange, pi, zeros, r_
 
@@ -88,7 +88,7 @@ def opf_execute(om, ppopt):
                                   '(see https://projects.coin-or.org/Ipopt/)' %
                                   alg)
         else:
-            stderr.write('opf_execute: OPF_ALG %d is not a valid algorithm code\n' % alg)
+            raise ValueError('opf_execute: OPF_ALG %d is not a valid algorithm code' % alg)
 
     if ('output' not in raw) or ('alg' not in raw['output']):
         raw['output']['alg'] = alg
diff --git a/pypower/runpf.py b/pypower/runpf.py
index 7bfaf31..6e16193 100644
--- a/pypower/runpf.py
+++ b/pypower/runpf.py
@@ -189,9 +189,9 @@ def runpf(casedata=None, ppopt=None, fname='', solvedcase=''):
             elif alg == 4:
                 V, success, _ = gausspf(Ybus, Sbus, V0, ref, pv, pq, ppopt)
             else:
-                stderr.write('Only Newton''s method, fast-decoupled, and '
-                             'Gauss-Seidel power flow algorithms currently '
-                             'implemented.\n')
+                raise ValueError('Only Newton\'s method, fast-decoupled, and '
+                                 'Gauss-Seidel power flow algorithms currently '
+                                 'implemented.')
 
             ## update data matrices with solution
             bus, gen, branch = pfsoln(baseMVA, bus, gen, branch, Ybus, Yf, Yt, V, ref, pv, pq)
-- 
2.43.0


From 7f9adcb85a8de2af0109c75e37fe2e29388f5031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:13 +0000
Subject: [PATCH 103/107] fix: AC OPF leaves the options of the caller alone

---
 pypower/opf_execute.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypower/opf_execute.py b/pypower/opf_execute.py
index 3ba6dab..51e0d10 100644
--- a/pypower/opf_execute.py
+++ b/pypower/opf_execute.py
@@ -9,6 +9,7 @@ from sys import stdout
 
 from numpy import array, arange, pi, zeros, r_
 
+from pypower.ppoption import ppoption
 from pypower.ppver import ppver
 from pypower.dcopf_solver import dcopf_solver
 from pypower.pipsopf_solver import pipsopf_solver
@@ -74,7 +75,7 @@ def opf_execute(om, ppopt):
         elif alg == 160 | alg == 260:      ## sparse (full) LP
             alg = 360
 
-        ppopt['OPF_ALG_POLY'] = alg
+        ppopt = ppoption(ppopt, OPF_ALG_POLY=alg)
 
         ## run specific AC OPF solver
         if alg == 560 or alg == 565:                   ## PIPS
-- 
2.43.0


From c9b31ed9075212afb83a48f6c043c1c594f1b9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:22 +0000
Subject: [PATCH 104/107] fix: RETURN_RAW_DER: stack the constraint Jacobians

---
 pypower/opf_execute.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypower/opf_execute.py b/pypower/opf_execute.py
index 51e0d10..379e1c1 100644
--- a/pypower/opf_execute.py
+++ b/pypower/opf_execute.py
@@ -8,6 +8,7 @@
 from sys import stdout
 
 from numpy import array, arange, pi, zeros, r_
+from scipy.sparse import vstack
 
 from pypower.ppoption import ppoption
 from pypower.ppver import ppver
@@ -120,7 +121,7 @@ def opf_execute(om, ppopt):
                     Ybus, Yf, Yt = makeYbus(ppc['baseMVA'], ppc['bus'], ppc['branch'])
                     g, geq, dg, dgeq = opf_consfcn(results['x'], om, Ybus, Yf, Yt, ppopt)
                     raw['g'] = r_[geq, g]
-                    raw['dg'] = r_[dgeq.T, dg.T]   ## true Jacobian organization
+                    raw['dg'] = dgeq.T if dg is None else vstack([dgeq.T, dg.T], 'csr')   ## true Jacobian organization
 
                 ## compute df, d2f
                 _, df, d2f = opf_costfcn(results['x'], om, True)
-- 
2.43.0


From 32437b055071769135d8b1a39332d9a29cf36cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:56 +0000
Subject: [PATCH 105/107] fix: DC OPF copes with having no costs at all

---
 pypower/dcopf_solver.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pypower/dcopf_solver.py b/pypower/dcopf_solver.py
index 5a11f92..1a2ac2b 100644
--- a/pypower/dcopf_solver.py
+++ b/pypower/dcopf_solver.py
@@ -156,7 +156,8 @@ def dcopf_solver(om, ppopt, out_opt=None):
     fparm_pol = ones((npol, 1)) * array([[1, 0, 0, 1]])
 
     ## combine with user costs
-    NN = vstack([n for n in [Npwl, Npol, N] if n is not None and n.shape[0] > 0], "csr")
+    NN = [n for n in [Npwl, Npol, N] if n is not None and n.shape[0] > 0]
+    NN = vstack(NN, "csr") if NN else sparse((0, nxyz))
     # FIXME: Zero dimension sparse matrices.
     if (Hpwl is not None) and any_pwl and (npol + nw):
         Hpwl = hstack([Hpwl, sparse((any_pwl, npol + nw))])
@@ -167,13 +168,14 @@ def dcopf_solver(om, ppopt, out_opt=None):
             Hpol = hstack([Hpol, sparse((npol, nw))])
     if (H is not None) and nw and (any_pwl + npol):
         H = hstack([sparse((nw, any_pwl + npol)), H])
-    HHw = vstack([h for h in [Hpwl, Hpol, H] if h is not None and h.shape[0] > 0], "csr")
+    HHw = [h for h in [Hpwl, Hpol, H] if h is not None and h.shape[0] > 0]
+    HHw = vstack(HHw, "csr") if HHw else sparse((0, 0))
     CCw = r_[Cpwl, Cpol, Cw]
     ffparm = r_[fparm_pwl, fparm_pol, fparm]
 
     ## transform quadratic coefficients for w into coefficients for X
     nnw = any_pwl + npol + nw
-    M = sparse((ffparm[:, 3], (range(nnw), range(nnw))))
+    M = sparse((ffparm[:, 3], (range(nnw), range(nnw))), (nnw, nnw))
     MR = M * ffparm[:, 1]
     HMR = HHw * MR
     MN = M * NN
-- 
2.43.0


From 7260b09b373b494f236e2913478c2b08796ecc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:06 +0000
Subject: [PATCH 106/107] fix: int2ext takes result columns back to external
 tables

---
 pypower/int2ext.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pypower/int2ext.py b/pypower/int2ext.py
index c06dd4d..fc9860c 100644
--- a/pypower/int2ext.py
+++ b/pypower/int2ext.py
@@ -11,6 +11,8 @@ from warnings import warn
 
 from copy import deepcopy
 
+from numpy import c_, zeros
+
 from pypower.idx_bus import BUS_I
 from pypower.idx_gen import GEN_BUS
 from pypower.idx_brch import F_BUS, T_BUS
@@ -73,6 +75,12 @@ def int2ext(ppc, val_or_field=None, oldval=None, ordering=None, dim=0):
                 o["int"]["N"] = ppc["N"].copy()
                 ppc["N"] = o["ext"]["N"].copy()
 
+            ## make room for the columns added in internal form
+            for t in ["bus", "branch", "gen"]:
+                added = o["int"][t].shape[1] - ppc[t].shape[1]
+                if added > 0:
+                    ppc[t] = c_[ppc[t], zeros((ppc[t].shape[0], added))]
+
             ## update data (in bus, branch and gen only)
             ppc["bus"][o["bus"]["status"]["on"], :] = \
                 o["int"]["bus"]
-- 
2.43.0


From b48cfdad16b31236cac095090c5834482d2321e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:38 +0000
Subject: [PATCH 107/107] fix: fix: runpf pads branch tables of 16 columns too

---
 pypower/runpf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypower/runpf.py b/pypower/runpf.py
index 6e16193..be85fd4 100644
--- a/pypower/runpf.py
+++ b/pypower/runpf.py
@@ -85,7 +85,7 @@ def runpf(casedata=None, ppopt=None, fname='', solvedcase=''):
     ppc = loadcase(casedata)
 
     ## add zero columns to branch for flows if needed
-    if ppc["branch"].shape[1] < QT:
+    if ppc["branch"].shape[1] < QT + 1:
         ppc["branch"] = c_[ppc["branch"],
                            zeros((ppc["branch"].shape[0],
                                   QT - ppc["branch"].shape[1] + 1))]
-- 
2.43.0

