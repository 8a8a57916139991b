From 13683ae2d7db8afb7697e670068efd525919c521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:05 +0000
Subject: [PATCH 01/31] fix: bcdfo_solve_TR_MS hard case builds its quadratic
 from scalars

numpy.poly1d was given a list mixing floats and a 1x1 array, which numpy
rejects with ValueError, so every pseudo-hard-case subproblem crashed the run.
---
 sqpdfo/bcdfo_solve_TR_MS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqpdfo/bcdfo_solve_TR_MS.py b/sqpdfo/bcdfo_solve_TR_MS.py
index 253435a..9e1d1b8 100644
--- a/sqpdfo/bcdfo_solve_TR_MS.py
+++ b/sqpdfo/bcdfo_solve_TR_MS.py
@@ -303,7 +303,7 @@ def bcdfo_solve_TR_MS_(g=None,H=None,Delta=None,eps_D=None,*args,**kwargs):
         nscri=0
         
     if (nscri <= Delta):
-        p2=numpy.poly1d([norm_(V[:,imu]) ** 2,2 * V[:,imu].reshape(1,-1).dot( scri),nscri ** 2 - Delta ** 2])
+        p2=numpy.poly1d([float(numpy.squeeze(coef)) for coef in (norm_(V[:,imu]) ** 2,2 * V[:,imu].dot( scri.reshape(-1)),nscri ** 2 - Delta ** 2)])
         root=max(p2.r)
         s=scri + root * V[:,imu].reshape(-1,1)
     else:
-- 
2.43.0


From 2d04135e4c52001933c9ec25a9869d292944b7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:05 +0000
Subject: [PATCH 02/31] fix: start sqpdfo_main with the constraint gradients of
 the initial models

gci/gce were unbound when the first trial step of a constrained problem was
rejected without rebuilding the models (UnboundLocalError in the Hessian update).
---
 sqpdfo/sqpdfo_main.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index 9393d60..6295013 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -188,13 +188,16 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
         ciY=copy(ciX[:,ind_Y])
     else:
         ciY=array([])
-        gci=array([])
         
     if me > 0:
         ceY=copy(ceX[:,ind_Y])
     else:
         ceY=array([])
-        gce=array([])
+        
+    # gradients of the constraint models built in sqpdfo_prelim_
+
+    gci=copy(info.ai)
+    gce=copy(info.ae)
         
     if options.final_degree == values.quadratic:
         pfinal = pquad
-- 
2.43.0


From f929669938a35543fd1d3ef991dd887e058a2502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:10 +0000
Subject: [PATCH 03/31] fix: hess_approx='bfgs' works without a user-supplied
 bfgs_restart

options.bfgs_restart had no default (AttributeError in every bfgs run) and a
positive value called the undefined mod_.
---
 sqpdfo/sqpdfo_computeHessian.py | 2 +-
 sqpdfo/sqpdfo_options.py        | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo_computeHessian.py b/sqpdfo/sqpdfo_computeHessian.py
index 196a45e..821d1a1 100644
--- a/sqpdfo/sqpdfo_computeHessian.py
+++ b/sqpdfo/sqpdfo_computeHessian.py
@@ -56,7 +56,7 @@ def sqpdfo_computeHessian_(simul=None,x=None,null_step=None,constrained_pbl=None
             # compute the BFGS approximation of the Hessian of the Lagrangian 
             # (with Powell corrections)
             if options.bfgs_restart > 0 \
-            and mod_(info.nsimul[1],options.bfgs_restart) == 0:
+            and info.nsimul[1] % options.bfgs_restart == 0:
                 szM = size_(M)
                 M=eye_(szM[0])
                 pc=2.0
diff --git a/sqpdfo/sqpdfo_options.py b/sqpdfo/sqpdfo_options.py
index 15f7730..df9714e 100644
--- a/sqpdfo/sqpdfo_options.py
+++ b/sqpdfo/sqpdfo_options.py
@@ -144,6 +144,9 @@ def sqpdfo_options_(info_=None,options_=None,*args,**kwargs):
     else:
         options.hess_approx = values.model  # default value
 
+    if not isfield_(options, 'bfgs_restart'):
+        options.bfgs_restart = 0  # default value (no restart)
+
     if isfield_(options, 'whichmodel'):
         if 'subbasis' == options.whichmodel.lower().replace(" ", ""):
             options.whichmodel = values.subbasis
-- 
2.43.0


From fd71137b5d8839776e168fb90794ea841500a557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:29 +0000
Subject: [PATCH 04/31] fix: a run without inequalities no longer sees the
 slacks of an earlier run

sqpdfo_ set the global slack variables only for problems with inequalities, so
after such a run every other problem in the same process was solved with the
old slacks.
---
 sqpdfo/sqpdfo.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqpdfo/sqpdfo.py b/sqpdfo/sqpdfo.py
index cba39ab..20368e5 100644
--- a/sqpdfo/sqpdfo.py
+++ b/sqpdfo/sqpdfo.py
@@ -129,6 +129,9 @@ def sqpdfo_(options_=None,func_f=None,x0=None,lb=None,ub=None,me=None,mi=None,fu
 
     # Handling of inequalities as slack variables
 
+    glob.set_nbr_slacks(0)      # forget the slacks of an earlier problem
+    glob.set_slacks(None)
+
     if mi:
 
         if li is None:
-- 
2.43.0


From 3b02bf48e02831a0dce32359b47cdb5c7818af1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:35 +0000
Subject: [PATCH 05/31] fix: stop with fail_on_simul when an evaluation fails
 during a set improvement

The improvement loop ignored info.flag after sqpdfo_augmX_evalf_, went on with
the missing function value and died with an IndexError.
---
 sqpdfo/sqpdfo_main.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index 6295013..4900d20 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -514,6 +514,13 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
                                    sstatus,dstatus,scaleX,scalefacX,info,\
                                    options,values,nargout=10)
                                    
+                # the function could not be evaluated at the new point
+                
+                if info.flag:
+                    return nit,i_xbest,x,fx,m,X,fX,ciX,ceX,ind_Y,delta,eps_current,\
+                    cur_degree,fcmodel,gx,normgx,vstatus,xstatus,sstatus,dstatus,M,\
+                    ndummyY,sspace_save,xspace_save,msg,CNTsin,neval,lm,info
+                    
                 fY[j]=fX[m]
                 
                 if mi > 0:
-- 
2.43.0


From 8d5945c1801384d04e79143040ff1d808c2633ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:06 +0000
Subject: [PATCH 06/31] fix: compare trial points with the current iterate
 after a set improvement

After a rejected step, f0/ce0/merit0 were kept across an interpolation set
improvement although the improvement may have moved to another iterate; a
discarded trial point (non-positive predicted reduction) left its function
value in info.f.
---
 sqpdfo/sqpdfo_main.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index 4900d20..f76a341 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -648,6 +648,11 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
 
             delta=copy(radius)
 
+            #  The current iterate and its function values may have changed:
+            #  renew the reference values of the sufficient decrease condition.
+
+            radius_has_been_rejected=copy(False)
+
         #if ( augment <= 0 ):
         #    delta = min( min( theta * normgx, epsilon ), Deltamax )
 
@@ -1086,6 +1091,7 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
             if pred == - 1.0:
                 pos=0
                 rho=1
+                info.f=fx          # recover f at the current iterate
                 
             if (rho < eta1) or (pos == -1):
             
-- 
2.43.0


From 227aefa8942f6feddb364cb172d0af5295a9bcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:11 +0000
Subject: [PATCH 07/31] fix: info.f is the objective value at the returned
 point on every exit

On an evaluation failure info.f held the failing value (NaN, Inf) although the
best point so far is returned.
---
 sqpdfo/sqpdfo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo.py b/sqpdfo/sqpdfo.py
index 20368e5..9108bbd 100644
--- a/sqpdfo/sqpdfo.py
+++ b/sqpdfo/sqpdfo.py
@@ -342,8 +342,8 @@ def sqpdfo_(options_=None,func_f=None,x0=None,lb=None,ub=None,me=None,mi=None,fu
     #  Rescale x if necessary
     if (scaleX):
         x=x / scalefacX
+    info.f=fx                   # function value at the returned point
     info_best=copy(info)
-    info_best.f=fx
     x=X[:,i_xbest]
     sqpdfo_finish_(nb,mi,me,info_best,options,values)
 
-- 
2.43.0


From 909b046dec1de35c13c57d340e14ae4e11b0dee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:39 +0000
Subject: [PATCH 08/31] fix: sqpdfo_find_smallf compares each component with
 its own bounds

A (n,) point was compared with (n,1) bounds, so every component was tested
against every bound and points inside the bounds were discarded.
---
 sqpdfo/sqpdfo_find_smallf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo_find_smallf.py b/sqpdfo/sqpdfo_find_smallf.py
index 86e0dc4..0888ebd 100644
--- a/sqpdfo/sqpdfo_find_smallf.py
+++ b/sqpdfo/sqpdfo_find_smallf.py
@@ -89,7 +89,7 @@ def sqpdfo_find_smallf_(c_=None,QZ_=None,RZ_=None,Y_=None,fY_=None,ciY_=None,ceY
     ind_insideBounds=array([])
     
     for i in range(0,cur_degree):
-        if((isempty_(find_(logical_or_(Y[:,i] < xl[indfree] , Y[:,i] > xu[indfree]),1)))\
+        if((isempty_(find_(logical_or_(Y[:,i] < xl[indfree].reshape(-1) , Y[:,i] > xu[indfree].reshape(-1)),1)))\
             and (isempty_(find_(dummy_set == ind_Y[i],1)))):
             ind_insideBounds=concatenate_([ind_insideBounds,[i]],axis=1)
         else:
-- 
2.43.0


From d33fb36e675f641d6981af41d2125e5c73eab20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:39 +0000
Subject: [PATCH 09/31] fix: sqpdfo_find_smallf may move to the second
 interpolation point

The test for 'already at the first position' was left one-based, so the best
point was never selected when it was at index 1.
---
 sqpdfo/sqpdfo_find_smallf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo_find_smallf.py b/sqpdfo/sqpdfo_find_smallf.py
index 0888ebd..c07c689 100644
--- a/sqpdfo/sqpdfo_find_smallf.py
+++ b/sqpdfo/sqpdfo_find_smallf.py
@@ -116,7 +116,7 @@ def sqpdfo_find_smallf_(c_=None,QZ_=None,RZ_=None,Y_=None,fY_=None,ciY_=None,ceY
     #  Exchange best point only if the new smallest fmin is strictly smaller than fx
     #  (to avoid a change of the center of the interpolation at equal function values)
 
-    if (imin != 1 and fmin < meritY[0]):
+    if (imin != 0 and fmin < meritY[0]):
     
         QZ,RZ,Y,ind_Y,fY,ciY,ceY,x,scale=\
         sqpdfo_swap_in_Y_(0,imin,QZ,RZ,Y,ind_Y,fY,ciY,ceY,x,whichmodel,\
-- 
2.43.0


From 170474d9e0eec439e45b55ef59b67cc178a969f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:20 +0000
Subject: [PATCH 10/31] fix: the trust-region radius never exceeds Deltamax

The enlargement after a successful step on the trust-region boundary was the
only update without the cap.
---
 sqpdfo/sqpdfo_main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index f76a341..a9e363d 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -1053,7 +1053,7 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
                     else:
                         if rho >= eta1:
                             if (active_r or active_t):
-                                delta=delta * tau2
+                                delta=min_(delta * tau2,Deltamax)
                             else:
                                 delta=min_(max_(tau2 * norms,delta),Deltamax)
                                 
-- 
2.43.0


From 1dbc96cf31ae90b7a15e8ff0fbe7c40a65dedc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:04 +0000
Subject: [PATCH 11/31] fix: accept x0, lb and ub as scalar, sequence, vector,
 row or column alike

One-dimensional and row bounds, and column starting points without bounds,
crashed; an integer x0 was truncated when moved inside the bounds, so the
initial points left the bounds.
---
 sqpdfo/sqpdfo.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/sqpdfo/sqpdfo.py b/sqpdfo/sqpdfo.py
index 9108bbd..92ef308 100644
--- a/sqpdfo/sqpdfo.py
+++ b/sqpdfo/sqpdfo.py
@@ -11,6 +11,17 @@ from numpy import array
 from sqpdfo.helper import *
 
 
+def column_vector_(v):
+    """
+    Returns a float copy of the scalar, sequence or array v; everything that is a
+    vector becomes a column vector.
+    """
+    v = np.array(v, dtype=float)
+    if v.ndim < 2 or v.shape[0] == 1:
+        v = v.reshape(-1, 1)
+    return v
+
+
 def sqpdfo_(options_=None,func_f=None,x0=None,lb=None,ub=None,me=None,mi=None,func_c=None, li=None, ui=None):
     """
 # [x,lm,info] = sqpdfo_(options)
@@ -107,16 +118,15 @@ def sqpdfo_(options_=None,func_f=None,x0=None,lb=None,ub=None,me=None,mi=None,fu
     if x0 is None:
         print('Error: No starting values of x given !')
         return x, lm, info
-    elif not isinstance(x0, np.ndarray):
-        x0 = array([x0])
+    x0 = column_vector_(x0)
     if lb is None:
-        lb = -1e20 * np.ones_like(x0).T
-    elif not isinstance(lb, np.ndarray):
-        lb = array([lb]).T
+        lb = -1e20 * np.ones_like(x0)
+    else:
+        lb = column_vector_(lb)
     if ub is None:
-        ub = 1e20 * np.ones_like(x0).T
-    elif not isinstance(ub, np.ndarray):
-        ub = array([ub]).T
+        ub = 1e20 * np.ones_like(x0)
+    else:
+        ub = column_vector_(ub)
 
 	# check existence of options
 
-- 
2.43.0


From 1b3d4c3e67af97fe9c7910e431a9502450868596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:08 +0000
Subject: [PATCH 12/31] fix: problems whose bounds are all infinite have a
 (zero) multiplier

lb=-inf, ub=inf for every variable, which the documentation allows, left the
multiplier empty and crashed the optimality test.
---
 sqpdfo/sqpdfo_prelim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqpdfo/sqpdfo_prelim.py b/sqpdfo/sqpdfo_prelim.py
index 276812c..055dc00 100644
--- a/sqpdfo/sqpdfo_prelim.py
+++ b/sqpdfo/sqpdfo_prelim.py
@@ -580,6 +580,8 @@ def sqpdfo_prelim_(func_=None,x0_=None,lm0_=None,Delta0_=None,lb_=None,ub_=None,
             lm=copy(lm0)
             if options.verbose >= 4:
                 fprintf_(options.fout,'  . |lm|_2                          %8.2e\n'%(norm_(lm)))
+    else:
+        lm=zeros_(n,1)
 
     # Initial optimality
 
-- 
2.43.0


From 7cab05cd7ebbe2c198a1d2abb389de6de69bc934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:53 +0000
Subject: [PATCH 13/31] fix: report fail_on_simul when no finite neighbourhood
 of x0 is found

With objective values below -1e25 around x0 the preliminaries returned flag 0
with unusable models (TypeError), and never returned for x0 = 0.
---
 sqpdfo/sqpdfo_prelim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo_prelim.py b/sqpdfo/sqpdfo_prelim.py
index 055dc00..bcf585b 100644
--- a/sqpdfo/sqpdfo_prelim.py
+++ b/sqpdfo/sqpdfo_prelim.py
@@ -399,9 +399,10 @@ def sqpdfo_prelim_(func_=None,x0_=None,lm0_=None,Delta0_=None,lb_=None,ub_=None,
 
             #  Terminate with an error message if Delta0 becomes negligible wrt x0.
 
-            if (Delta0 < stallfact * norm_(x0)):
+            if (Delta0 < stallfact * max_(1,norm_(x0))):
                 disp_('Error: cannot find enough finite objective function values',\
                 ' in the neighbourhood of the starting point! Terminating.')
+                info.flag=values.fail_on_simul
 
                 #  including fixed variables at return
 
-- 
2.43.0


From 3ba49d573e42429e60e0d8bad55517bdbd110358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:18 +0000
Subject: [PATCH 14/31] fix: variables fixed by equal bounds can be used

The code for fixed variables multiplied index matrices elementwise and wrote
into empty arrays, so every problem with lb(i)=ub(i) crashed.
---
 sqpdfo/sqpdfo.py             |  5 ++---
 sqpdfo/sqpdfo_augmX_evalf.py |  8 ++++++--
 sqpdfo/sqpdfo_main.py        | 10 +++++-----
 sqpdfo/sqpdfo_prelim.py      |  7 ++++---
 4 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/sqpdfo/sqpdfo.py b/sqpdfo/sqpdfo.py
index 92ef308..045ca9e 100644
--- a/sqpdfo/sqpdfo.py
+++ b/sqpdfo/sqpdfo.py
@@ -342,11 +342,10 @@ def sqpdfo_(options_=None,func_f=None,x0=None,lb=None,ub=None,me=None,mi=None,fu
     #  Re-assemble gradient at return
     if (nfix > 0):
         I=eye_(n + nfix)
-        x=I[:,indfix] * xfix[indfix] + I[:,indfree].dot(x)
-        gx=I[:,indfix] * zeros_(nfix,1) + I[:,indfree].dot(gx)
+        gx=I[:,indfree].dot(gx)
         Ilm=eye_(n + nfix + me + mi)
         indfree_lm=setdiff_(range(0,n + nfix + me + mi),indfix)
-        lm=Ilm[:,indfix] * zeros_(nfix,1) + Ilm[:,indfree_lm] * lm
+        lm=Ilm[:,indfree_lm].dot(lm)
         n=n + nfix
 
     #  Rescale x if necessary
diff --git a/sqpdfo/sqpdfo_augmX_evalf.py b/sqpdfo/sqpdfo_augmX_evalf.py
index d802a1e..35fe132 100644
--- a/sqpdfo/sqpdfo_augmX_evalf.py
+++ b/sqpdfo/sqpdfo_augmX_evalf.py
@@ -80,8 +80,12 @@ def sqpdfo_augmX_evalf_(f=None,y=None,m=None,X_=None,fX_=None,ciX_=None,ceX_=Non
     #  Augment X with full-dimensional y, scale if user-defined and evaluate f at y
 
     if (nfix > 0):
-        yfull=I[:,indfix] * xfix[indfix] + I[:,indfree] * y
-        X[:,m]=yfull
+        yfull=copy(xfix)
+        yfull[indfree]=y
+        try:
+            X[:,[m]]=yfull
+        except IndexError:
+            X=concatenate_([X,yfull],axis=1)
         if (scaleX):
             yfull=yfull / scalefacX
         info.nsimul[1]=info.nsimul[1] + 1
diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index a9e363d..4f90238 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -21,7 +21,7 @@ from sqpdfo.bcdfo_find_new_yj import bcdfo_find_new_yj_
 from sqpdfo.bcdfo_replace_in_Y import bcdfo_replace_in_Y_
 from sqpdfo.sqpdfo_find_smallf import sqpdfo_find_smallf_
 from sqpdfo.bcdfo_include_in_Y import bcdfo_include_in_Y_
-from numpy import array, zeros, concatenate, zeros_like
+from numpy import array, zeros, concatenate, zeros_like, delete
 import sqpdfo.sqpdfo_global_variables as glob
 
 
@@ -709,10 +709,10 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
         old_delta=copy(delta)
 
         xnew,deltaTR,rpred,active_r,active_t,lm_computed,lm,info,slplus=\
-        sqpdfo_solve_TR_bc_(func,x,lb,ub,delta,mi,me,M,\
-                           prec_r,prec_t,info,options,values,\
-                           radius_has_been_rejected,lm,ceY,ciY,gx,indfree,\
-                           nargout=9)
+        sqpdfo_solve_TR_bc_(func,x,delete(lb,indfix,0),delete(ub,indfix,0),delta,\
+                           mi,me,M,prec_r,prec_t,info,options,values,\
+                           radius_has_been_rejected,lm,ceY,ciY,gx,\
+                           arange(0,n),nargout=9)
         
         # check for error
 
diff --git a/sqpdfo/sqpdfo_prelim.py b/sqpdfo/sqpdfo_prelim.py
index bcf585b..a159542 100644
--- a/sqpdfo/sqpdfo_prelim.py
+++ b/sqpdfo/sqpdfo_prelim.py
@@ -233,6 +233,7 @@ def sqpdfo_prelim_(func_=None,x0_=None,lm0_=None,Delta0_=None,lb_=None,ub_=None,
             ciX,ciY,ceX,ceY,poisedness_known,m,gx,normgx,fcmodel,ind_Y,i_xbest,\
             cur_degree,rep_degree,plin,pdiag,pquad,indfree,info,options,values
             
+        indfix=indfix.astype(int)
         indfree=setdiff_(arange(0,n),indfix)
         x0=x0[indfree]
         
@@ -243,7 +244,7 @@ def sqpdfo_prelim_(func_=None,x0_=None,lm0_=None,Delta0_=None,lb_=None,ub_=None,
                 cur_degree=2 * nfree + 1
             else:
                 if (cur_degree == pquad):
-                    cur_degree=((nfree + 1) * (nfree + 2)) / 2
+                    cur_degree=int(((nfree + 1) * (nfree + 2)) / 2)
         if (rep_degree == plin):
             rep_degree=nfree + 1
         else:
@@ -251,11 +252,11 @@ def sqpdfo_prelim_(func_=None,x0_=None,lm0_=None,Delta0_=None,lb_=None,ub_=None,
                 rep_degree=2 * nfree + 1
             else:
                 if (rep_degree == pquad):
-                    rep_degree=((nfree + 1) * (nfree + 2)) / 2
+                    rep_degree=int(((nfree + 1) * (nfree + 2)) / 2)
                     
         plin=nfree + 1
         pdiag=2 * nfree + 1
-        pquad=((nfree + 1) * (nfree + 2)) / 2
+        pquad=int(((nfree + 1) * (nfree + 2)) / 2)
         n=copy(nfree)
         
     else:
-- 
2.43.0


From 2c7e02edb83f3964dbbaaa3a04cde579da05d1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:55 +0000
Subject: [PATCH 15/31] fix: whichmodel='Frobnorm' builds and evaluates its
 models

The minimum Frobenius-norm branches of computeP, computeLj and evalL indexed
unallocated or one-dimensional arrays, used an unimported function and a
mistranslated right division; every run with this option failed.
---
 sqpdfo/bcdfo_computeLj.py | 11 ++++++-----
 sqpdfo/bcdfo_computeP.py  |  7 ++++---
 sqpdfo/bcdfo_evalL.py     | 11 ++++++-----
 3 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/sqpdfo/bcdfo_computeLj.py b/sqpdfo/bcdfo_computeLj.py
index 1ed35fc..d5e604f 100644
--- a/sqpdfo/bcdfo_computeLj.py
+++ b/sqpdfo/bcdfo_computeLj.py
@@ -64,15 +64,15 @@ def bcdfo_computeLj_(QZ=None,RZ=None,j=None,Y_=None,whichmodel=None,scale=None,s
 #    L2-norm Lagrange polynomials (p1 == n+1 or p1 == q )
         if (p1 == n + 1 or p1 == q):
 #       build linear/quadratic Lagrange polynomials 
-           Lj=(numpy.linalg.solve(RZ,QZ.T).dot(concatenate_([zeros_(j - 1,1),numpy.array([[1]]),zeros_(p1 - j,1)],axis=0))).T
-           if (p1 == n + 1):
-                Lj[n + 1:q]=0
+           Lj=zeros_(1,q)
+           Lj[:,0:p1]=(numpy.linalg.solve(RZ,QZ.T).dot(concatenate_([zeros_(j - 1,1),numpy.array([[1]]),zeros_(p1 - j,1)],axis=0))).T
         else:
 #       build Minimum Frobenius-norm Lagrange polynomials (p1 <= q)
 #
 #        If shifting is active, the matrix of the interpoaltion points is first
 #        shifted and scaled (to compute M correctly).
             if (shift_Y):
+                Y=copy(Y)
                 xbase=copy(Y[:,0])
                 scaleY=0
                 for i in range(0,p1):
@@ -83,10 +83,11 @@ def bcdfo_computeLj_(QZ=None,RZ=None,j=None,Y_=None,whichmodel=None,scale=None,s
             rhs=concatenate_([zeros_(j - 1,1),numpy.array([[1]]),zeros_(p1 + n +1 - j,1)],axis=0)
             mualpha=(numpy.linalg.solve(RZ,(QZ.T.dot(rhs)))).T
 #       constant and linear part of P
-            Lj[0:n + 1]=mualpha[p1:p1 + n + 1].T
+            Lj=zeros_(1,q)
+            Lj[0,0:n + 1]=mualpha[0,p1:p1 + n + 1]
 #       quadratic part of P
             M=bcdfo_evalZ_(Y,q).T
-            Lj[n + 1:q]=M[:,n + 1:q].T.dot( mualpha[0:p1]).T
+            Lj[0,n + 1:q]=M[:,n + 1:q].T.dot( mualpha[0,0:p1])
     elif (whichmodel == 2):
 #    build Minimum L2 norm Lagrange polynomials (p1 <= q)
 #    (QZ and RZ are the factors of Z = M')
diff --git a/sqpdfo/bcdfo_computeP.py b/sqpdfo/bcdfo_computeP.py
index 716d14e..9c762a0 100644
--- a/sqpdfo/bcdfo_computeP.py
+++ b/sqpdfo/bcdfo_computeP.py
@@ -98,13 +98,14 @@ def bcdfo_computeP_(QZ=None,RZ=None,Y_=None,fY=None,whichmodel=None,P_old=None,i
 
             P=array([])
             for i in range(0,n_rhs):
-                rhs=concatenate_([fY[i,:],zeros_(1,n + 1)], axis=1)
+                rhs=concatenate_([fY[[i],:],zeros_(1,n + 1)], axis=1)
                 mualpha=(numpy.linalg.solve(RZ,(QZ.T.dot(rhs.T)))).T
 #                 constant and linear part of P
-                P_i[0:n + 1]=mualpha[p1:p1 + n + 1].T
+                P_i=zeros((1,q))
+                P_i[0,0:n + 1]=mualpha[0,p1:p1 + n + 1]
 #                 quadratic part of P
                 M=bcdfo_evalZ_(Y,q).T
-                P_i[n + 1:q]=M[:,n + 1:q].T.dot(mualpha[0:p1].T)
+                P_i[0,n + 1:q]=M[:,n + 1:q].T.dot(mualpha[0,0:p1])
                 P=concatenate_([P, P_i])
     elif (whichmodel == 2):
         P=(QZ.dot((numpy.linalg.solve(RZ.T,fY.T)))).T
diff --git a/sqpdfo/bcdfo_evalL.py b/sqpdfo/bcdfo_evalL.py
index 9bcad8a..9b53bdb 100644
--- a/sqpdfo/bcdfo_evalL.py
+++ b/sqpdfo/bcdfo_evalL.py
@@ -2,6 +2,7 @@
 
 from sqpdfo.runtime import *
 from sqpdfo.bcdfo_evalP import bcdfo_evalP_
+from sqpdfo.bcdfo_evalZ import bcdfo_evalZ_
 import numpy
 from copy import copy
     
@@ -55,7 +56,7 @@ def bcdfo_evalL_(QZ=None,RZ=None,Y_=None,choice_set=None,x=None,xbase=None,which
     n,p1=size_(Y,nargout=2)
     I=eye_(p1)
     lc=length_(choice_set)
-    q=((n + 1) * (n + 2)) / 2
+    q=int(((n + 1) * (n + 2)) / 2)
     values=zeros_(p1,1)
     if (whichmodel == 3 and p1 < q):
 #     for underdetermined regression model use min l2-norm model
@@ -67,17 +68,17 @@ def bcdfo_evalL_(QZ=None,RZ=None,Y_=None,choice_set=None,x=None,xbase=None,which
         if (p1 == n + 1 or p1 == q):
 #        evaluate Minimum L2 norm Lagrange polynomial (p1 == n+1 or p1 == q)
 
-            values[choice_set]=bcdfo_evalP_(I[choice_set,:] .dot( (QZ / RZ.T)),x,xbase,scale,shift_Y)
+            values[choice_set]=bcdfo_evalP_(I[choice_set,:].dot( numpy.linalg.solve(RZ,QZ.T).T),x,xbase,scale,shift_Y)
         else:
 #       evaluate Minimum Frobenius norm Lagrange polynomial (p1 <= q)
 #
 #        If shifting is active, the matrix of the interpoaltion points is first
 #        shifted and scaled (to compute M correctly).
             if (shift_Y):
-                xbase=copy(Y[:,0])
+                xbase=copy(Y[:,[0]])
                 scaleY=0
                 for i in range(0,p1):
-                    Y[:,i]=Y[:,i] - xbase
+                    Y[:,i]=Y[:,i] - xbase[:,0]
                     scaleY=max_(scaleY,norm_(Y[:,i]))
                 Y=Y / scaleY
             M=bcdfo_evalZ_(Y,q).T
@@ -86,7 +87,7 @@ def bcdfo_evalL_(QZ=None,RZ=None,Y_=None,choice_set=None,x=None,xbase=None,which
                 phi=bcdfo_evalZ_((x - xbase) * scale[1],q)
             else:
                 phi=bcdfo_evalZ_(x,q)
-            values[choice_set]=concatenate_([  I[choice_set,:],  zeros_(lc,n + 1).dot(QZ .dot(numpy.linalg.solve(RZ.T,concatenate_([MQ.dot(phi[n + 1:q]),phi[0:n + 1]]))))],axis=1)
+            values[choice_set]=concatenate_([I[choice_set,:],zeros_(lc,n + 1)],axis=1).dot(QZ.dot(numpy.linalg.solve(RZ.T,concatenate_([MQ.dot(phi[n + 1:q]),phi[0:n + 1]]))))
     elif (whichmodel == 2):
 #    evaluate Minimum L2 norm Lagrange polynomial (p1 <= q)
         if (p1 < q):
-- 
2.43.0


From 868faae0e58e5e5d3a09a6d577d591ea757632c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:17 +0000
Subject: [PATCH 16/31] fix: detailed printout works for problems without
 bounds and constraints

With options.verbose >= 4 and no finite bound the header read options.tol and
options.df1, which no option setting defines.
---
 sqpdfo/sqpdfo_prelim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqpdfo/sqpdfo_prelim.py b/sqpdfo/sqpdfo_prelim.py
index a159542..c766404 100644
--- a/sqpdfo/sqpdfo_prelim.py
+++ b/sqpdfo/sqpdfo_prelim.py
@@ -549,14 +549,14 @@ def sqpdfo_prelim_(func_=None,x0_=None,lm0_=None,Delta0_=None,lb_=None,ub_=None,
             fprintf_(options.fout,'  . gradient of the Lagrangian      %8.2e\n'%(options.tol_grad))
             fprintf_(options.fout,'  . feasibility                     %8.2e\n'%(options.tol_feas))
         else:
-            fprintf_(options.fout,'  . gradient of the cost function   %8.2e\n'%(options.tol[0]))
+            fprintf_(options.fout,'  . gradient of the cost function   %8.2e\n'%(options.tol_grad))
         fprintf_(options.fout,'  counters:\n')
         fprintf_(options.fout,'  . max iterations                  %4i\n'%(options.miter))
         fprintf_(options.fout,'  . max function evaluations        %4i\n'%(options.msimul))
         fprintf_(options.fout,'  algorithm:\n')
         fprintf_(options.fout,'  . globalization by trust regions\n')
         fprintf_(options.fout,'  various input/initial values:\n')
-        if  (nb + mi + me == 0) and (options.df1 > 0) and (info.f > 0):
+        if  (nb + mi + me == 0) and isfield_(options,'df1') and (options.df1 > 0) and (info.f > 0):
             fprintf_(options.fout,'  . expected initial decrease       %8.2e\n'%(options.df1 * info.f))
         if nb + mi > 0:
             fprintf_(options.fout,'  . infinite bound threshold        %8.2e\n'%(options.inf))
-- 
2.43.0


From c260b867bc84a6d62416e8f2ea34d56edfc27cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:57 +0000
Subject: [PATCH 17/31] fix: blls continues when all variables are at a bound
 at a non-optimal Cauchy point

---
 sqpdfo/blls.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/sqpdfo/blls.py b/sqpdfo/blls.py
index 078046d..26f5ebe 100644
--- a/sqpdfo/blls.py
+++ b/sqpdfo/blls.py
@@ -193,13 +193,11 @@ def blls_(A=None,b=None,lb=None,ub=None,*args,**kwargs):
    ##########################################################################
    #       Beyond the Cauchy point: nested subspace minimization            #
    ##########################################################################
-   # The Cauchy point is optimal for the problem because either there is no 
-   # free variable left (which implies opt = 0) or because the residual is 
-   # zero: terminate as s is the problem's solution.
+   # There is no subspace to search if no free variable is left or if the 
+   # residual is zero.
         if (lfree == 0 or resn <= epsres):
             if (verbose > 1):
                 fprintf_('   No nested subspace search\n')
-            opt=0  #  Forces termination
       # There are free variables at the Cauchy point: start a nested 
       # subspace search.
         else: # ( lfree > 0 && resn > epsres )
@@ -378,9 +376,10 @@ def blls_(A=None,b=None,lb=None,ub=None,*args,**kwargs):
                             print("indices_of_variables_at_their_upper_bound="+str(atub))
                             print("indices_of_free_variables="+str(free))
                     break
-            # Compute the optimality measure.
+        # Compute the optimality measure (bounds active at the Cauchy point
+        # may have to be left again).
 
-           opt=norm_(min_(max_(s - A.T.dot(res),lb),ub) - s)
+        opt=norm_(min_(max_(s - A.T.dot(res),lb),ub) - s)
        # Iteration printout
 
         if (verbose == 1):
-- 
2.43.0


From 79413462e942910e37680c899d5e872045c45d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:01 +0000
Subject: [PATCH 18/31] fix: blls adds the bounds reached by the maximum
 feasible step to its active set

---
 sqpdfo/blls.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqpdfo/blls.py b/sqpdfo/blls.py
index 26f5ebe..52835e2 100644
--- a/sqpdfo/blls.py
+++ b/sqpdfo/blls.py
@@ -341,8 +341,8 @@ def blls_(A=None,b=None,lb=None,ub=None,*args,**kwargs):
                        # the current active set.
                         natlb=free[find_(abs(ssub[free] - lb[free]) <= epsfeas)].reshape(-1)
                         natub=free[find_(abs(ssub[free] - ub[free]) <= epsfeas)].reshape(-1)
-                        atlb=append(atlb,natlbt)
-                        atub=append(atub,natubt)
+                        atlb=append(atlb,natlb)
+                        atub=append(atub,natub)
                         atb=append(atlb,atub)
                         free=copy(inds)
                         free = np.delete(free, atb)
-- 
2.43.0


From 116a9094a77d48d372aa5f7120e0bfcd094a96c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:11 +0000
Subject: [PATCH 19/31] fix: a successful point replacing another one renews
 the reference values

---
 sqpdfo/sqpdfo_main.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index 4f90238..8d92d14 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -1483,7 +1483,14 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
                 # Recover ce at the current iterate
 
                 #info.ce=ce0
-                info.f=f0
+                info.f=fx
+                
+                #  A successful point that replaced a far or close point is the
+                #  new iterate: renew the reference values of the sufficient
+                #  decrease condition.
+                
+                if i_xbest == m:
+                    radius_has_been_rejected=copy(False)
 
                 # Recompute Lagrange multiplier
 
-- 
2.43.0


From 96668fdc914e392c4b7dd082f9dc37ef2ae504d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:08 +0000
Subject: [PATCH 20/31] fix: the last history row shows the objective at the
 returned point

---
 sqpdfo/sqpdfo_main.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index 8d92d14..63c05c5 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -1470,6 +1470,10 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
                                 
                             info.flag=values.stop_on_small_trust_region
                             
+                            # recover f at the current iterate
+                            
+                            info.f=fx
+                            
                             # final printout
                             
                             sqpdfo_iter_printout_(info,delta,norms,pc,itype,\
-- 
2.43.0


From fabf7c61e9e655b567091d853b6bdcf404162af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:54 +0000
Subject: [PATCH 21/31] fix: a run that fails in its initial evaluations
 returns a complete one-dimensional x

---
 sqpdfo/sqpdfo.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sqpdfo/sqpdfo.py b/sqpdfo/sqpdfo.py
index 045ca9e..5bc4c66 100644
--- a/sqpdfo/sqpdfo.py
+++ b/sqpdfo/sqpdfo.py
@@ -300,6 +300,11 @@ def sqpdfo_(options_=None,func_f=None,x0=None,lb=None,ub=None,me=None,mi=None,fu
             fid=fopen_('convhist.m','a')
             fprintf_(fid,'];')
             fclose_(fid)
+        # return the point with all its components and in the usual shape
+        if nfix and length_(x) < length_(xfix):
+            xfix[indfree]=x
+            x=copy(xfix)
+        x=array(x).reshape(-1)
         return x,lm,info
 
     # Set approach to build the local models
-- 
2.43.0


From 5c513fd047b4cf634e0c12797d329e4ba0643f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:33 +0000
Subject: [PATCH 22/31] fix: an objective that changes its argument does not
 move the point of the constraints

---
 sqpdfo/sqpdfo_func.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqpdfo/sqpdfo_func.py b/sqpdfo/sqpdfo_func.py
index 3868830..f83eedc 100644
--- a/sqpdfo/sqpdfo_func.py
+++ b/sqpdfo/sqpdfo_func.py
@@ -29,13 +29,13 @@ def sqpdfo_func_(x=None,*args,**kwargs):
     xc = copy(x.T)
     xc = list(xc[0])
     try:
-        f = ffunc(xc)
+        f = ffunc(list(xc))
     except:
         f = np.inf
         msgf = 1
     if cfunc != '':
         try:
-            c = cfunc(xc)
+            c = cfunc(list(xc))
             c = array(c).reshape(-1, 1)
         except:
             msgc = 1
-- 
2.43.0


From 16e32241430c071c0f83b520c53bf195dbea9f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:20 +0000
Subject: [PATCH 23/31] fix: TR_MS reports norm, value and gradient of the zero
 step it returns

---
 sqpdfo/bcdfo_solve_TR_MS.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqpdfo/bcdfo_solve_TR_MS.py b/sqpdfo/bcdfo_solve_TR_MS.py
index 9e1d1b8..5551238 100644
--- a/sqpdfo/bcdfo_solve_TR_MS.py
+++ b/sqpdfo/bcdfo_solve_TR_MS.py
@@ -325,6 +325,9 @@ def bcdfo_solve_TR_MS_(g=None,H=None,Delta=None,eps_D=None,*args,**kwargs):
     
     if abs(value) <= 1e-15:
         s=zeros_(size_(s))
+        norms=0
+        value=0.0
+        gplus=copy(g)
         
     #  Define information message.
 
-- 
2.43.0


From 51031a10a1f614b6a14b6882df18834f0f9867d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:12 +0000
Subject: [PATCH 24/31] fix: the poisedness printed with verbose >= 4 does not
 replace the one the algorithm uses

---
 sqpdfo/sqpdfo_main.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index 63c05c5..b9df117 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -481,11 +481,12 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
                           ', Y_radius = ',str(Y_radius))
                     
             if (options.verbose >= 4):
-                poised,Y_radius=\
+                # (for the printout only: it must not influence the algorithm)
+                poised_print,_radius_print=\
                 bcdfo_poisedness_Y_(QZ,RZ,Y,eps_L,x,lSolver,whichmodel,\
                 hardcons,lb,ub,indfree,stratLam,scale,shift_Y,nargout=2)
                 
-                disp_(' poisedness(Y) = ',str(poised))
+                disp_(' poisedness(Y) = ',str(poised_print))
                 
             poised_model=1
 
-- 
2.43.0


From 838547388fc34faae3b2ab34f6748bd1b8eda82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:31 +0000
Subject: [PATCH 25/31] fix: an options class given by the user is not modified

---
 sqpdfo/sqpdfo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqpdfo/sqpdfo.py b/sqpdfo/sqpdfo.py
index 5bc4c66..b9ba773 100644
--- a/sqpdfo/sqpdfo.py
+++ b/sqpdfo/sqpdfo.py
@@ -134,6 +134,8 @@ def sqpdfo_(options_=None,func_f=None,x0=None,lb=None,ub=None,me=None,mi=None,fu
         print('No options are given by the user, default values are used.')
         class options:
             pass
+    elif isinstance(options_, type):    # copy() returns a class itself
+        options = type('options', (options_,), dict(options_.__dict__))
     else:
         options = copy(options_)
 
-- 
2.43.0


From 90ec9ec16b338fc04402b28fee6fee52dd287644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:57 +0000
Subject: [PATCH 26/31] fix: constraints that are zero at all points evaluated
 so far are not dropped

---
 sqpdfo/sqpdfo_main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index b9df117..dc4c427 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -802,7 +802,7 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
         
             fxplus=copy(fX[m])
             
-            if ceX.any():
+            if not isempty_(ceX):
                 ceX[ceX>=1e25] = 10*max_(ceX[ceX<1e25])
                 ceX[ceX<=-1e25] = 10*min_(ceX[ceX>-1e25])
                 ceplus = copy(array([ceX[:,m]]).T)
-- 
2.43.0


From 07f2f76fe4559909ecbd6e66ec1f0f9febb95ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:56 +0000
Subject: [PATCH 27/31] fix: infinite constraint values are replaced by values
 of the same sign

---
 sqpdfo/helper.py        | 11 +++++++++++
 sqpdfo/sqpdfo_main.py   |  4 ++--
 sqpdfo/sqpdfo_prelim.py |  3 +--
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/sqpdfo/helper.py b/sqpdfo/helper.py
index 8322c87..fa0f9e3 100644
--- a/sqpdfo/helper.py
+++ b/sqpdfo/helper.py
@@ -3,6 +3,17 @@
 import numpy as np
 
 
+def replace_infinite_(c):
+      """
+      Replaces in place the entries of c whose modulus is 1e25 or more by values of
+      the same sign, ten times as large as the largest remaining entry (in modulus)
+      """
+      infinite = abs(c) >= 1e25
+      if infinite.any():
+            finite = abs(c[abs(c) < 1e25])
+            c[infinite] = np.sign(c[infinite]) * 10 * max(1.0, finite.max() if finite.size else 0.0)
+
+
 class dummyUnionStruct():
       """
       Creates an empty object which can for instance later be used options, info in the SQPDFO algorithm
diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index dc4c427..4fd041b 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -21,6 +21,7 @@ from sqpdfo.bcdfo_find_new_yj import bcdfo_find_new_yj_
 from sqpdfo.bcdfo_replace_in_Y import bcdfo_replace_in_Y_
 from sqpdfo.sqpdfo_find_smallf import sqpdfo_find_smallf_
 from sqpdfo.bcdfo_include_in_Y import bcdfo_include_in_Y_
+from sqpdfo.helper import replace_infinite_
 from numpy import array, zeros, concatenate, zeros_like, delete
 import sqpdfo.sqpdfo_global_variables as glob
 
@@ -803,8 +804,7 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
             fxplus=copy(fX[m])
             
             if not isempty_(ceX):
-                ceX[ceX>=1e25] = 10*max_(ceX[ceX<1e25])
-                ceX[ceX<=-1e25] = 10*min_(ceX[ceX>-1e25])
+                replace_infinite_(ceX)
                 ceplus = copy(array([ceX[:,m]]).T)
 
         # ---------------
diff --git a/sqpdfo/sqpdfo_prelim.py b/sqpdfo/sqpdfo_prelim.py
index c766404..35cf181 100644
--- a/sqpdfo/sqpdfo_prelim.py
+++ b/sqpdfo/sqpdfo_prelim.py
@@ -380,8 +380,7 @@ def sqpdfo_prelim_(func_=None,x0_=None,lm0_=None,Delta0_=None,lb_=None,ub_=None,
             
         # Check for infinity constraint values
         
-        ceX[ceX>=1e25] = 10 * max_(ceX[ceX<1e25])
-        ceX[ceX<=-1e25] = 10 * min_(ceX[ceX>-1e25])
+        replace_infinite_(ceX)
                     
         fY=copy(fX)
         ciY=copy(ciX)
-- 
2.43.0


From ed00b3f966f607e34cf34fa3e6ad40f3d82be365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:16 +0000
Subject: [PATCH 28/31] fix: the slacks of a step shortened at a bound start
 from the shortened step

---
 sqpdfo/sqpdfo_solve_TR_bc.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/sqpdfo/sqpdfo_solve_TR_bc.py b/sqpdfo/sqpdfo_solve_TR_bc.py
index 9dbf7d1..773996d 100644
--- a/sqpdfo/sqpdfo_solve_TR_bc.py
+++ b/sqpdfo/sqpdfo_solve_TR_bc.py
@@ -357,10 +357,7 @@ def sqpdfo_solve_TR_bc_(simul=None,x=None,lb=None,ub=None,delta=None,mi=None,me=
             r_slsl = r_sl[n:n+nbr_slacks]
             t_slsl = t_sl[n:n+nbr_slacks]
             
-            if iter_active == 1:
-                slnew = sl + r_slsl + t_slsl
-            else:
-                slnew = slnew + t_slsl
+            slnew = sl + r_slsl + t_slsl
                 
             # check slacks to stay in their bounds
             
@@ -564,10 +561,7 @@ def sqpdfo_solve_TR_bc_(simul=None,x=None,lb=None,ub=None,delta=None,mi=None,me=
             step=r_sl + tstep
             
             if nbr_slacks:
-                if iter_active == 1:
-                    slnew = sl + r_sl[n:n+nbr_slacks] + tstep[n:n+nbr_slacks]
-                else:
-                    slnew = slnew + tstep[n:n+nbr_slacks]
+                sl = sl + r_sl[n:n+nbr_slacks] + tstep[n:n+nbr_slacks]
             
             if options.verbose == 3:
                 disp_('t = (',str(tstep[0:n].T),')')
-- 
2.43.0


From 90ea8272fe95ab04693d9179895a03e50dddf550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:20 +0000
Subject: [PATCH 29/31] fix: crossed bounds are reported when other variables
 are fixed

---
 sqpdfo/sqpdfo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo.py b/sqpdfo/sqpdfo.py
index b9ba773..225ad95 100644
--- a/sqpdfo/sqpdfo.py
+++ b/sqpdfo/sqpdfo.py
@@ -303,7 +303,7 @@ def sqpdfo_(options_=None,func_f=None,x0=None,lb=None,ub=None,me=None,mi=None,fu
             fprintf_(fid,'];')
             fclose_(fid)
         # return the point with all its components and in the usual shape
-        if nfix and length_(x) < length_(xfix):
+        if nfix and indfree is not None and length_(x) < length_(xfix):
             xfix[indfree]=x
             x=copy(xfix)
         x=array(x).reshape(-1)
-- 
2.43.0


From ca298b25c20b8060ae26cc8ac65982f30f50c777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:38 +0000
Subject: [PATCH 30/31] fix: a matrix given as starting point is reported for
 problems with inequalities

---
 sqpdfo/sqpdfo.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqpdfo/sqpdfo.py b/sqpdfo/sqpdfo.py
index 225ad95..c8f31a1 100644
--- a/sqpdfo/sqpdfo.py
+++ b/sqpdfo/sqpdfo.py
@@ -119,6 +119,9 @@ def sqpdfo_(options_=None,func_f=None,x0=None,lb=None,ub=None,me=None,mi=None,fu
         print('Error: No starting values of x given !')
         return x, lm, info
     x0 = column_vector_(x0)
+    if x0.shape[1] != 1:
+        print('Error: The starting values of x must be a vector !')
+        return x, lm, info
     if lb is None:
         lb = -1e20 * np.ones_like(x0)
     else:
-- 
2.43.0


From 591259b81b5ac92e616d6a96d825968b71042830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:36 +0000
Subject: [PATCH 31/31] fix: a value of func_f returned in a reused array was
 overwritten later

---
 sqpdfo/sqpdfo_func.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo_func.py b/sqpdfo/sqpdfo_func.py
index f83eedc..9aa3326 100644
--- a/sqpdfo/sqpdfo_func.py
+++ b/sqpdfo/sqpdfo_func.py
@@ -29,7 +29,8 @@ def sqpdfo_func_(x=None,*args,**kwargs):
     xc = copy(x.T)
     xc = list(xc[0])
     try:
-        f = ffunc(list(xc))
+        # (a copy: the user's function may reuse the array it returns)
+        f = copy(ffunc(list(xc)))
     except:
         f = np.inf
         msgf = 1
-- 
2.43.0

