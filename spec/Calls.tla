------------------------------- MODULE Calls -------------------------------
(* Contracts of the components of sqpdfo, over IEEE doubles.  A recorded    *)
(* call is a record c with its arguments, its results and witnesses (eigen- *)
(* systems, multipliers, right inverses) that are themselves checked before *)
(* they are relied upon.  CallTrace.tla evaluates the contracts on calls.   *)
EXTENDS Poly, Integers, Sequences, FiniteSets

D(s) == FDec(s)
ZERO == FInt(0)  ONE == FInt(1)  HALF == D("0.5")
T3 == D("1e-3")  T5 == D("1e-5")  T6 == D("1e-6")  T7 == D("1e-7")  T8 == D("1e-8")  T9 == D("1e-9")  T10 == D("1e-10")  T12 == D("1e-12")

Near(a, b, tol) == a = b \/ FLe(FAbs(FSub(a, b)), FMul(tol, FAdd(ONE, FAbs(b))))
\* equal up to tol times a scale
Close(a, b, tol, sc) == a = b \/ FLe(FAbs(FSub(a, b)), FMul(tol, sc))
VClose(x, y, tol, sc) == Len(x) = Len(y) /\ \A j \in 1..Len(x) : Close(x[j], y[j], tol, sc)
AllFin(x) == \A j \in 1..Len(x) : FFin(x[j])
MFin(M) == \A j \in 1..Len(M) : AllFin(M[j])
MaxM(M) == IF Len(M) = 0 THEN ZERO ELSE VMaxAbs([j \in 1..Len(M) |-> VMaxAbs(M[j])])
Col(M, j) == [i \in 1..Len(M) |-> M[i][j]]
Transp(M) == IF Len(M) = 0 THEN <<>> ELSE [j \in 1..Len(M[1]) |-> Col(M, j)]
MMul(A, B) == LET BT == Transp(B) IN [i \in 1..Len(A) |-> [j \in 1..Len(BT) |-> VDot(A[i], BT[j])]]
MClose(A, B, tol, sc) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : VClose(A[i], B[i], tol, sc)
Ident(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN ONE ELSE ZERO]]
Quad(g, H, s) == FAdd(VDot(g, s), FMul(HALF, VDot(s, MVec(H, s))))
Max3(a, b, d) == FMax(a, FMax(b, d))
Times(n, a) == FMul(FInt(n), a)
Chk(name, applies, ok) == IF applies THEN {<<name, ok>>} ELSE {}
Moderate(M) == MFin(M) /\ FLe(MaxM(M), D("1e12"))

(* An eigensystem: rows of V are orthonormal and V' diag(D) V = A.          *)
EigenOK(A, V, Dg) ==
  /\ Len(V) = Len(A) /\ Len(Dg) = Len(A)
  /\ MClose(MMul(V, Transp(V)), Ident(Len(A)), T10, ONE)
  /\ LET VT == Transp(V) sc == FAdd(ONE, MaxM(A)) IN
     \A i \in 1..Len(A) : \A j \in 1..i :
        Close(VDot([k \in 1..Len(V) |-> FMul(VT[i][k], Dg[k])], VT[j]), FMul(HALF, FAdd(A[i][j], A[j][i])), T10, sc)
MinOf(v) == CHOOSE a \in {v[j] : j \in 1..Len(v)} : \A j \in 1..Len(v) : FLe(a, v[j])
MaxOf(v) == CHOOSE a \in {v[j] : j \in 1..Len(v)} : \A j \in 1..Len(v) : FLe(v[j], a)

-----------------------------------------------------------------------------
(* Trust-region minimisation in a ball (bcdfo_solve_TR_MS).                 *)
(* Lower bound: for l >= 0 with H + l I psd,                                *)
(*   min = g's + s'Hs/2 over the ball >= -1/2 sum (v'g)^2/(d + l) - l Delta^2/2 *)
RECURSIVE SumTo(_, _)
SumTo(v, k) == IF k = 0 THEN ZERO ELSE FAdd(v[k], SumTo(v, k - 1))
DualBound(c) ==
  LET b == MVec(c.V, c.g)
      q == [j \in 1..Len(c.D) |-> FDiv(FMul(b[j], b[j]), FAdd(c.D[j], c.dual))]
  IN FNeg(FMul(HALF, FAdd(SumTo(q, Len(q)), FMul(c.dual, FMul(c.del_, c.del_)))))
DualOK(c) == /\ FLe(ZERO, c.dual)
             /\ FLt(FMul(D("1e-13"), FAdd(ONE, MaxM(c.H))), FAdd(MinOf(c.D), c.dual))
ScQ(c, s) == FAdd(FMul(VMaxAbs(c.g), VNorm(s)), FMul(MaxM(c.H), FMul(VNorm(s), VNorm(s))))

TrmsChecks(c, p) ==
  LET ok == MFin(c.H) /\ AllFin(c.g) /\ FLt(ZERO, c.del_) /\ Moderate(c.H)
      nz == FLe(D("1e-12"), FMul(VNorm(c.g), VNorm(c.g)))
      wit == Len(c.V) > 0 /\ EigenOK(c.H, c.V, c.D) /\ DualOK(c)
      lb == DualBound(c)
      val == Quad(c.g, c.H, c.s)
      \* the gap of a bound that had to move off a singular matrix
      low == IF FLe(c.dual, FMul(D("1e-11"), FAdd(ONE, MaxM(c.H)))) THEN FMul(c.dual, FMul(c.del_, c.del_)) ELSE ZERO
  IN  Chk(p \o "_ms_finite", ok, AllFin(c.s) /\ Len(c.s) = Len(c.g))
      \cup Chk(p \o "_ms_radius", ok, FLe(VNorm(c.s), FMul(c.del_, FAdd(ONE, FAdd(c.eps, T12)))))
      \cup Chk(p \o "_ms_norm", ok, Close(c.norms, VNorm(c.s), T10, FAdd(c.norms, D("1e-15"))))
      \cup Chk(p \o "_ms_value", ok, Close(c.value, val, T10, FAdd(ScQ(c, c.s), D("1e-15"))))
      \cup Chk(p \o "_ms_gradient", ok, VClose(c.gplus, VAdd(c.g, MVec(c.H, c.s)), T10, FAdd(VMaxAbs(c.g), FMul(MaxM(c.H), VNorm(c.s)))))
      \cup Chk(p \o "_ms_descent", ok /\ nz, FLe(val, FMul(T12, ScQ(c, c.s))))
      \cup Chk(p \o "_ms_global", ok /\ nz /\ wit,
               FLe(val, FAdd(FMul(lb, D("0.98")), FAdd(FAdd(FMul(T10, ScQ(c, c.s)), D("1e-15")), low))))
      \cup Chk(p \o "_ms_zero_gradient", ok /\ VMaxAbs(c.g) = ZERO, VNorm(c.s) = ZERO)

-----------------------------------------------------------------------------
(* Steihaug's truncated conjugate gradients as a state machine: iterate x,  *)
(* residual g = A x - b, direction d, counter k, and its stopping rules.    *)
(* mar is the smallest relative distance to a different decision.           *)
ToBoundary(x, d, del) ==
  LET dd == VDot(d, d) xd == VDot(x, d) cc == FSub(VDot(x, x), FMul(del, del))
  IN VAdd(x, VScale(FDiv(FSub(FSqrt(FSub(FMul(xd, xd), FMul(dd, cc))), xd), dd), d))
Margin(a, b) == FDiv(FAbs(FSub(a, b)), FAdd(FAdd(FAbs(a), FAbs(b)), D("1e-300")))
RECURSIVE CG(_, _, _, _, _, _, _, _)
CG(c, x, g, d, gg, k, mar, dummy) ==
  LET g2 == VDot(g, g) t2 == FMul(c.tol, c.tol) m1 == FMin(mar, Margin(g2, t2)) IN
  IF FLe(g2, t2) THEN [x |-> x, flag |-> 0, iter |-> k, mar |-> m1]
  ELSE IF k > c.maxit THEN [x |-> x, flag |-> -1, iter |-> c.maxit, mar |-> m1]
  ELSE LET dn == IF k = 1 THEN VScale(-1, g) ELSE VAdd(VScale(-1, g), VScale(FDiv(g2, gg), d))
           Ad == MVec(c.A, dn)
           curv == VDot(dn, Ad)
           m2 == FMin(m1, FDiv(FAbs(curv), FAdd(FMul(VDot(dn, dn), MaxM(c.A)), D("1e-300"))))
       IN IF FLe(curv, ZERO) THEN [x |-> ToBoundary(x, dn, c.del_), flag |-> 2, iter |-> k, mar |-> m2]
          ELSE LET a == FNeg(FDiv(VDot(g, dn), curv))
                   xx == VAdd(x, VScale(a, dn))
                   m3 == FMin(m2, Margin(VDot(xx, xx), FMul(c.del_, c.del_)))
               IN IF FLt(FMul(c.del_, c.del_), VDot(xx, xx))
                  THEN [x |-> ToBoundary(x, VSub(xx, x), c.del_), flag |-> 1, iter |-> k, mar |-> m3]
                  ELSE CG(c, xx, VAdd(g, VScale(a, Ad)), dn, g2, k + 1, m3, dummy)
Steihaug(c) == CG(c, [j \in 1..Len(c.b) |-> ZERO], VScale(-1, c.b), <<>>, ONE, 1, ONE, 0)

TcgChecks(c, p) ==
  LET ok == Moderate(c.A) /\ AllFin(c.b) /\ FLt(ZERO, c.del_) /\ FLe(VMaxAbs(c.b), D("1e12"))
      q(x) == Quad(VScale(-1, c.b), c.A, x)
      sc(x) == FAdd(FMul(VMaxAbs(c.b), VNorm(x)), FMul(MaxM(c.A), FMul(VNorm(x), VNorm(x))))
      r == VSub(MVec(c.A, c.x), c.b)
      wit == Len(c.V) > 0 /\ EigenOK(c.A, c.V, c.D)
      bb == VDot(c.b, c.b)
      nb == VNorm(c.b)
      bAb == VDot(c.b, MVec(c.A, c.b))
      \* the Cauchy point
      t0 == IF FLe(bAb, ZERO) THEN FDiv(c.del_, nb) ELSE FMin(FDiv(bb, bAb), FDiv(c.del_, nb))
      cauchy == q(VScale(t0, c.b))
      m == Steihaug(c)
  IN  Chk(p \o "_cg_radius", ok, FLe(VNorm(c.x), FMul(c.del_, FAdd(ONE, T10))))
      \cup Chk(p \o "_cg_flags", ok, c.flag \in {-1, 0, 1, 2})
      \cup Chk(p \o "_cg_converged", ok /\ c.flag = 0,
               FLe(VNorm(r), FAdd(FMul(c.tol, FAdd(ONE, T6)), FMul(T10, FAdd(FAdd(ONE, VMaxAbs(c.b)), FMul(MaxM(c.A), VNorm(c.x)))))))
      \cup Chk(p \o "_cg_boundary", ok /\ c.flag \in {1, 2}, Close(VNorm(c.x), c.del_, T8, c.del_))
      \cup Chk(p \o "_cg_curvature", ok /\ wit /\ c.flag = 2, FLe(MinOf(c.D), FMul(T8, FAdd(ONE, MaxM(c.A)))))
      \cup Chk(p \o "_cg_limit", ok /\ c.flag = -1, c.iter = c.maxit)
      \cup Chk(p \o "_cg_cauchy", ok /\ FLt(c.tol, nb) /\ c.maxit >= 1,
               FLe(q(c.x), FAdd(cauchy, FMul(T9, FAdd(sc(c.x), sc(VScale(t0, c.b)))))))
      \cup Chk(p \o "_cg_zero", ok /\ FLe(nb, c.tol), VNorm(c.x) = ZERO)
      \cup Chk(p \o "_cg_machine", ok /\ FLt(T6, m.mar) /\ m.iter <= Len(c.b) + 1,
               m.flag = c.flag /\ m.iter = c.iter /\ VClose(c.x, m.x, T6, FAdd(D("1e-30"), VNorm(m.x))))

-----------------------------------------------------------------------------
(* Trust-region minimisation inside bounds (bcdfo_solve_TR_MS_bc).          *)
Clamp(s, lb, ub) == [j \in 1..Len(s) |-> FMax(lb[j], FMin(ub[j], s[j]))]
\* a projected gradient step of length t
ProjStep(c, t) == Clamp(VScale(FNeg(t), c.g), c.lb, c.ub)
Scales == {D("1"), D("0.5"), D("0.25"), D("0.1"), D("0.03"), D("0.01"), D("0.001"), D("2"), D("5")}
TrmsbcChecks(c, p) ==
  LET n == Len(c.g)
      ok == Moderate(c.H) /\ AllFin(c.g) /\ FLt(ZERO, c.del_) /\ (\A j \in 1..n : FLe(c.lb[j], ZERO) /\ FLe(ZERO, c.ub[j]))
      val == Quad(c.g, c.H, c.s)
      slack == FMul(T5, FSqrt(FInt(n)))
      \* feasible projected gradient steps inside the ball: some fraction of the decrease of each must be reached
      cand == {s \in {ProjStep(c, t) : t \in Scales} : FLe(VNorm(s), c.del_)}
      good == c.note # "limit in bc-MS exceeded" /\ SubSeq(c.note, 1, 5) # "error" /\ SubSeq(c.note, 1, 5) # "Error"
  IN  Chk(p \o "_bc_finite", ok, AllFin(c.s) /\ Len(c.s) = n)
      \cup Chk(p \o "_bc_bounds", ok, \A j \in 1..n : FLe(c.lb[j], FAdd(c.s[j], T12)) /\ FLe(c.s[j], FAdd(c.ub[j], T12)))
      \cup Chk(p \o "_bc_radius", ok, FLe(VNorm(c.s), FAdd(FMul(c.del_, FAdd(ONE, FAdd(c.eps, T9))), slack)))
      \cup Chk(p \o "_bc_norm", ok /\ good, Close(c.norms, VNorm(c.s), T9, FAdd(ONE, c.norms)))
      \cup Chk(p \o "_bc_value", ok /\ good, Close(c.value, val, T9, FAdd(ONE, ScQ(c, c.s))))
      \cup Chk(p \o "_bc_descent", ok, FLe(val, FAdd(FMul(T5, FAdd(VMaxAbs(c.g), MaxM(c.H))), FMul(T9, ScQ(c, c.s)))))
      \cup Chk(p \o "_bc_fraction", ok /\ good,
               \A s \in cand : FLe(val, FAdd(FMul(D("0.1"), Quad(c.g, c.H, s)), FMul(D("1e-4"), FAdd(VMaxAbs(c.g), MaxM(c.H))))))

-----------------------------------------------------------------------------
(* Bound-constrained linear least squares (blls).                           *)
BllsChecks(c, p) ==
  LET n == Len(c.s)
      ok == Moderate(c.A) /\ AllFin(c.b) /\ FLe(VMaxAbs(c.b), D("1e12")) /\ (\A j \in 1..n : FLe(c.lb[j], c.ub[j]))
      r == VSub(MVec(c.A, c.s), c.b)
      g == MTVec(c.A, r)
      sc == FAdd(ONE, FMul(FAdd(ONE, MaxM(c.A)), FAdd(FMul(MaxM(c.A), VMaxAbs(c.s)), VMaxAbs(c.b))))
      tol == FMul(T8, sc)
      atlo(j) == FLe(c.s[j], FAdd(c.lb[j], T10))
      atup(j) == FLe(FSub(c.ub[j], T10), c.s[j])
  IN  Chk(p \o "_blls_finite", ok, AllFin(c.s) /\ (Len(c.A) = 0 \/ Len(c.A[1]) = n))
      \cup Chk(p \o "_blls_bounds", ok, \A j \in 1..n : FLe(c.lb[j], FAdd(c.s[j], T10)) /\ FLe(c.s[j], FAdd(c.ub[j], T10)))
      \cup Chk(p \o "_blls_residual", ok, Close(c.resn, VNorm(r), T8, sc))
      \cup Chk(p \o "_blls_kkt", ok /\ c.exitc = 0,
               \/ FLe(VNorm(r), FMul(T9, sc))
               \/ \A j \in 1..n : \/ FLe(FAbs(g[j]), tol)
                                  \/ atlo(j) /\ FLe(ZERO, g[j])
                                  \/ atup(j) /\ FLe(g[j], ZERO))
      \cup Chk(p \o "_blls_exit", ok, c.exitc \in {-1, 0, 1})
      \cup Chk(p \o "_blls_solves", ok /\ Len(c.A) >= n /\ FLe(c.cond, FInt(100)) /\ FLe(VMaxAbs(c.b), FInt(100)) /\ FLe(VMaxAbs(c.s), FInt(100)), c.exitc = 0)

-----------------------------------------------------------------------------
(* The (damped) BFGS update.                                                *)
Outer(v) == [i \in 1..Len(v) |-> [j \in 1..Len(v) |-> FMul(v[i], v[j])]]
MAdd(A, B) == [i \in 1..Len(A) |-> VAdd(A[i], B[i])]
MScale(k, A) == [i \in 1..Len(A) |-> VScale(k, A[i])]
ETA == D("0.2")
BfgsSpec(c) ==
  LET n == Len(c.s)
      ys0 == VDot(c.y, c.s)
      Hs0 == MVec(c.H, c.s)
      sHs0 == VDot(c.s, Hs0)
      damp == FLt(ys0, FMul(ETA, sHs0))
      pc == IF damp THEN FDiv(FMul(FSub(ONE, ETA), sHs0), FSub(sHs0, ys0)) ELSE ONE
      y == IF damp THEN VAdd(VScale(pc, c.y), VScale(FSub(ONE, pc), Hs0)) ELSE c.y
      ys == VDot(y, c.s)
      fail == VNorm(c.s) = ZERO \/ FLe(sHs0, ZERO) \/ FLe(ys, ZERO)
      para == FDiv(VDot(y, y), ys)
      H == IF c.first = 1 THEN [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN para ELSE ZERO]] ELSE c.H
      Hs == IF c.first = 1 THEN VScale(para, c.s) ELSE Hs0
      sHs == VDot(c.s, Hs)
  IN [fail |-> fail, y |-> y, ys |-> ys, pc |-> pc, sHs |-> sHs,
      R |-> IF fail THEN c.H
            ELSE MAdd(MAdd(H, MScale(FDiv(FInt(-1), sHs), Outer(Hs))), MScale(FDiv(ONE, ys), Outer(y)))]
BfgsChecks(c, p) ==
  LET ok == Moderate(c.H) /\ AllFin(c.y) /\ AllFin(c.s) /\ FLe(VMaxAbs(c.y), D("1e10"))
      b == BfgsSpec(c)
      \* decisions that do not hang on rounding
      clear == VNorm(c.s) = ZERO \/ FLt(FMul(T8, FMul(MaxM(c.H), VDot(c.s, c.s))), FAbs(VDot(c.s, MVec(c.H, c.s))))
      sc == FAdd(ONE, MaxM(b.R))
      live == ok /\ clear /\ ~b.fail /\ FLt(FMul(T8, FMul(VNorm(b.y), VNorm(c.s))), b.ys) /\ Moderate(b.R)
      psd == Len(c.V) > 0 /\ EigenOK(c.R, c.V, c.D)
  IN  Chk(p \o "_bfgs_failure", ok /\ clear /\ b.fail /\ VNorm(c.s) = ZERO, c.ok = 0 /\ c.R = c.H)
      \cup Chk(p \o "_bfgs_success", live, c.ok = 1)
      \* the matrix is initialised in the first iteration only
      \cup Chk(p \o "_bfgs_first", c.gen = 0, c.first = 1 <=> c.niter = 1)
      \cup Chk(p \o "_bfgs_formula", live, MClose(c.R, b.R, T8, sc))
      \cup Chk(p \o "_bfgs_damping", live, Close(c.pc, b.pc, T8, FAdd(ONE, FAbs(b.pc))))
      \cup Chk(p \o "_bfgs_secant", live, VClose(MVec(c.R, c.s), b.y, T8, FAdd(FMul(sc, VNorm(c.s)), VNorm(b.y))))
      \cup Chk(p \o "_bfgs_symmetric", live, MClose(c.R, Transp(c.R), T10, sc))
      \cup Chk(p \o "_bfgs_curvature", live, FLe(FMul(FMul(ETA, D("0.999999")), IF c.first = 1 THEN ZERO ELSE VDot(c.s, MVec(c.H, c.s))), VDot(c.s, MVec(c.R, c.s))))
      \cup Chk(p \o "_bfgs_definite", live /\ psd /\ c.gen = 1, FLt(FNeg(FMul(T10, sc)), MinOf(c.D)))

(* sqpdfo_check_convex: no negative eigenvalues, convex matrices untouched. *)
ConvexChecks(c, p) ==
  LET ok == Moderate(c.A) /\ MClose(c.A, Transp(c.A), T12, FAdd(ONE, MaxM(c.A)))
      sc == FAdd(ONE, MaxM(c.A))
      wa == Len(c.V) > 0 /\ EigenOK(c.A, c.V, c.D)
      wr == Len(c.RV) > 0 /\ EigenOK(c.R, c.RV, c.RD)
      neg == FLt(MinOf(c.D), FNeg(FMul(T10, sc)))
      pos == FLt(FMul(T10, sc), MinOf(c.D))
      \* positive eigenpairs survive
      keep == \A k \in 1..Len(c.D) : FLt(FMul(T6, sc), c.D[k]) => VClose(MVec(c.R, c.V[k]), VScale(c.D[k], c.V[k]), T8, sc)
      flat == \A k \in 1..Len(c.D) : FLt(c.D[k], FNeg(FMul(T6, sc))) => FLe(VNorm(MVec(c.R, c.V[k])), FMul(T8, sc))
  IN  Chk(p \o "_convex_finite", ok, MFin(c.R) /\ Len(c.R) = Len(c.A))
      \cup Chk(p \o "_convex_nonnegative", ok /\ wr, FLe(FNeg(FMul(T10, sc)), MinOf(c.RD)))
      \cup Chk(p \o "_convex_unchanged", ok /\ wa /\ pos, MClose(c.R, c.A, T12, sc))
      \cup Chk(p \o "_convex_keeps_positive", ok /\ wa /\ neg, keep)
      \cup Chk(p \o "_convex_flattens_negative", ok /\ wa /\ neg, flat)
      \cup Chk(p \o "_convex_symmetric", ok, MClose(c.R, Transp(c.R), T9, sc))

(* sqpdfo_check_cond: S and RS are the singular values before and after.    *)
CondChecks(c, p) ==
  LET ok == Moderate(c.A) /\ Len(c.S) > 0
      sc == FAdd(ONE, MaxM(c.A))
      sym == MClose(c.A, Transp(c.A), T12, sc)
      big == c.S[1]  small == c.S[Len(c.S)]
      bad == FLt(FMul(FMul(small, c.thr), D("1.0001")), big)
      fine == FLt(FMul(big, D("1.0001")), FMul(small, c.thr))
      dist == VNorm([j \in 1..(Len(c.A) * Len(c.A[1])) |->
                 LET r == ((j - 1) \div Len(c.A[1])) + 1 q == j - (r - 1) * Len(c.A[1]) IN FSub(c.R[r][q], c.A[r][q])])
      least == VNorm([j \in 1..Len(c.S) |-> FMax(ZERO, FSub(T7, c.S[j]))])
  IN  Chk(p \o "_cond_finite", ok, MFin(c.R) /\ Len(c.R) = Len(c.A))
      \cup Chk(p \o "_cond_reported", ok, (bad => c.bad = 1) /\ (fine => c.bad = 0))
      \cup Chk(p \o "_cond_unchanged", ok /\ fine, MClose(c.R, c.A, T12, sc))
      \cup Chk(p \o "_cond_raised", ok /\ bad /\ sym, FLe(T8, c.RS[Len(c.RS)]) \/ FLe(MaxM(c.A), T7) \/ FLe(D("1e6"), big))
      \* nothing but the small singular values is changed
      \cup Chk(p \o "_cond_distance", ok /\ sym, FLe(dist, FAdd(FMul(D("1.01"), least), FMul(T10, sc))))
      \cup Chk(p \o "_cond_symmetric", ok /\ sym, MClose(c.R, Transp(c.R), T10, sc))

-----------------------------------------------------------------------------
(* Polynomials.                                                             *)
PolyChecks(c, p) ==
  LET n == Len(c.x)
      co == IF c.shift = 1 THEN [j \in 1..Len(c.P) |-> FMul(c.P[j], c.scale[j])] ELSE c.P
      z == IF c.shift = 1 THEN VSub(c.x, c.base) ELSE c.x
      sc == FMul(FAdd(ONE, VMaxAbs(co)), FMul(FInt(10), FAdd(ONE, FMul(VMaxAbs(z), VMaxAbs(z)))))
  IN  Chk(p \o "_value", TRUE, Close(c.val, PVal(co, z), T12, sc))
      \cup Chk(p \o "_gradient", "grad" \in DOMAIN c, VClose(c.grad, PGrad(co, z), T12, sc))
      \cup Chk(p \o "_hessian", "hess" \in DOMAIN c, MClose(c.hess, PHess(co, n), T12, sc))
      \cup Chk(p \o "_monomials", TRUE,
               c.Z = <<SubSeq(Phi(c.x), 1, Len(c.P)), SubSeq(Phi(c.base), 1, Len(c.P))>>
               \/ \A k \in 1..2 : VClose(c.Z[k], SubSeq(Phi(IF k = 1 THEN c.x ELSE c.base), 1, Len(c.P)), T12, sc))

-----------------------------------------------------------------------------
(* Interpolation sets: QR factors, models, Lagrange polynomials.            *)
\* model types: 0 sub-basis, 1 minimum Frobenius norm, 2 minimum l2 norm, 3 regression
SetType(c) == IF c.wm = 3 /\ Len(c.Y) < Full(c.n) THEN 2 ELSE c.wm
SetQ(c) == IF c.wm = 0 THEN Len(c.Y) ELSE Full(c.n)
\* scaled, shifted points
SetPts(c) == LET z == [j \in 1..Len(c.Y) |-> VSub(c.Y[j], c.Y[1])]
                 m == MaxOf([j \in 1..Len(z) |-> VNorm(z[j])])
             IN IF c.shift = 1 THEN [j \in 1..Len(z) |-> VScale(FDiv(ONE, m), z[j])] ELSE c.Y
Mono(c) == LET z == SetPts(c) IN [j \in 1..Len(z) |-> SubSeq(Phi(z[j]), 1, SetQ(c))]    \* row j: monomials at point j
FrobMat(c) ==
  LET M == Mono(c) p1 == Len(M) n == c.n q == Full(n)
      ML == [j \in 1..p1 |-> SubSeq(M[j], 1, n + 1)]
      MQ == [j \in 1..p1 |-> SubSeq(M[j], n + 2, q)]
  IN [i \in 1..(p1 + n + 1) |-> [j \in 1..(p1 + n + 1) |->
        IF i <= p1 /\ j <= p1 THEN VDot(MQ[i], MQ[j])
        ELSE IF i <= p1 THEN ML[i][j - p1] ELSE IF j <= p1 THEN ML[j][i - p1] ELSE ZERO]]
SetMat(c) == LET p1 == Len(c.Y) IN
  CASE SetType(c) \in {0, 2} -> Transp(Mono(c))
    [] SetType(c) = 3 -> Mono(c)
    [] SetType(c) = 1 -> IF p1 = c.n + 1 \/ p1 = Full(c.n) THEN [j \in 1..p1 |-> SubSeq(Mono(c)[j], 1, p1)] ELSE FrobMat(c)
SetScaleOK(c) ==
  LET m == MaxOf([j \in 1..Len(c.Y) |-> VNorm(VSub(c.Y[j], c.Y[1]))]) n == c.n IN
  IF c.shift = 0 THEN \A j \in 1..Len(c.scale) : c.scale[j] = ONE
  ELSE /\ Len(c.scale) >= SetQ(c) /\ c.base = c.Y[1] /\ c.scale[1] = ONE
       /\ \A j \in 2..SetQ(c) : LET w == IF j <= n + 1 THEN FDiv(ONE, m) ELSE FDiv(ONE, FMul(m, m)) IN Close(c.scale[j], w, T12, w)
\* the right inverse W (columns) of the scaled shifted monomials shows that the set is poised
Poised(c) ==
  /\ Len(c.W) = Len(c.Y)
  /\ LET M == LET z == [j \in 1..Len(c.Y) |-> VSub(c.Y[j], c.Y[1])]
                  m == MaxOf([j \in 1..Len(z) |-> VNorm(z[j])])
              IN [j \in 1..Len(z) |-> SubSeq(Phi(VScale(FDiv(ONE, m), z[j])), 1, SetQ(c))]
     IN \A i \in 1..Len(c.Y) : \A j \in 1..Len(c.Y) : Close(VDot(M[i], c.W[j]), IF i = j THEN ONE ELSE ZERO, T8, ONE)
  /\ FLe(MaxM(c.W), FInt(1000))
LagVal(c, j, y) == MVal(c.L[j], y, c.base, c.scale, c.shift)
SetChecks(c, p) ==
  LET p1 == Len(c.Y)
      has == "P" \in DOMAIN c
      pois == has /\ Poised(c)
      ty == SetType(c)
      tolv == D("1e-6")
      Z == SetMat(c)
      scq == FAdd(ONE, MaxM(Z))
      QR == MMul(c.Q, c.R)
  IN  Chk(p \o "_qr_product", pois, MClose(QR, Z, T9, scq))
      \cup Chk(p \o "_qr_orthogonal", TRUE, MClose(MMul(Transp(c.Q), c.Q), Ident(Len(c.Q[1])), T9, ONE))
      \cup Chk(p \o "_qr_triangular", TRUE, \A i \in 1..Len(c.R) : \A j \in 1..Len(c.R[1]) : j < i => Close(c.R[i][j], ZERO, T10, scq))
      \cup Chk(p \o "_scale", TRUE, SetScaleOK(c))
      \cup Chk(p \o "_interpolates", pois /\ ty \in {0, 1, 2},
               \A j \in 1..p1 : Close(MVal(c.P, c.Y[j], c.base, c.scale, c.shift), c.fY[j], tolv, FAdd(ONE, VMaxAbs(c.fY))))
      \cup Chk(p \o "_lagrange_delta", pois /\ ty \in {0, 1, 2},
               \A j \in 1..p1 : \A i \in 1..p1 : Close(LagVal(c, j, c.Y[i]), IF i = j THEN ONE ELSE ZERO, tolv, ONE))
      \cup Chk(p \o "_lagrange_values", pois,
               \A j \in 1..p1 : LET v == LagVal(c, j, c.x) IN Close(c.lx[j], v, tolv, FAdd(FInt(10), FAbs(v))))
      \cup Chk(p \o "_lagrange_sum", pois /\ ty \in {0, 1, 2},
               LET v(k) == LagVal(c, k, c.x)
                   s == SumTo([k \in 1..p1 |-> FMul(c.fY[k], v(k))], p1)
                   w == MVal(c.P, c.x, c.base, c.scale, c.shift)
               IN Close(s, w, tolv, FAdd(FInt(10), FAdd(FAbs(w), VNorm([k \in 1..p1 |-> FMul(c.fY[k], v(k))])))))
      \cup Chk(p \o "_new_point_radius", pois /\ "news" \in DOMAIN c,
               \A k \in 1..Len(c.news) : FLe(VNorm(VSub(c.news[k][2], c.Y[1])), FMul(c.mag, D("1.0011"))))

-----------------------------------------------------------------------------
(* Geometry of interpolation sets.  A record c holds one set (as above), the *)
(* improvements proposed for its points in the ball of radius del_, its      *)
(* poisedness, the set after a repair, and the results of the set operations.*)
(* For polynomial j: V, D an eigensystem of its Hessian H, dp and dm (rp, rm)*)
(* multipliers for the minimum of L_j and of -L_j in the ball (of radius rad).*)
LagCo(c, L) == IF c.shift = 1 THEN [j \in 1..Len(L) |-> FMul(L[j], c.scale[j])] ELSE L
LagG(c, L) == PGrad(LagCo(c, L), IF c.shift = 1 THEN VSub(c.Y[1], c.base) ELSE c.Y[1])
LagH(c, L) == PHess(LagCo(c, L), c.n)
\* bounds on the largest |L_j| in the ball of radius d around the first point, where L_j vanishes
Upper(c, j, w, d, dp, dm) ==
  LET g == LagG(c, c.L[j]) H == LagH(c, c.L[j])
      lo == DualBound([g |-> g, V |-> w.V, D |-> w.D, dual |-> dp, del_ |-> d])
      hi == DualBound([g |-> VScale(-1, g), V |-> w.V, D |-> VScale(-1, w.D), dual |-> dm, del_ |-> d])
  IN FMax(FNeg(lo), FNeg(hi))
UpperOK(c, j, w, dp, dm) ==
  LET H == LagH(c, c.L[j]) IN
  /\ EigenOK(H, w.V, w.D)
  /\ DualOK([H |-> H, D |-> w.D, dual |-> dp]) /\ DualOK([H |-> H, D |-> VScale(-1, w.D), dual |-> dm])
Sloped(c, j) == FLe(T10, VNorm(LagG(c, c.L[j])))

FactorOK(r) ==   \* the factors, base and scale belong to the set
  /\ MClose(MMul(Transp(r.Q), r.Q), Ident(Len(r.Q[1])), T9, ONE)
  /\ SetScaleOK(r)
  /\ Poised(r) => LET Z == SetMat(r) IN MClose(MMul(r.Q, r.R), Z, T9, FAdd(ONE, MaxM(Z)))
Put(Y, j, y) == [k \in 1..Len(Y) |-> IF k = j THEN y ELSE Y[k]]

OpChecks(c, o, p) ==
  Chk(p \o "_" \o o.op \o "_factors", TRUE, FactorOK(o))
  \cup Chk(p \o "_augment_appends", o.op = "augment",
           IF Len(c.Y) >= Full(c.n) /\ c.wm # 3 THEN o.Y = c.Y /\ o.p = Len(c.Y) ELSE o.Y = Append(c.Y, c.x) /\ o.p = Len(c.Y) + 1)
  \cup Chk(p \o "_replace_replaces", o.op = "replace", o.Y = Put(c.Y, o.j + 1, c.x))
  \cup Chk(p \o "_swap_swaps", o.op = "swap",
           LET ex(v) == [k \in 1..Len(v) |-> IF k = o.i + 1 THEN v[o.j + 1] ELSE IF k = o.j + 1 THEN v[o.i + 1] ELSE v[k]]
           IN o.Y = ex(c.Y) /\ o.fY = ex(c.fY) /\ o.ind = ex([k \in 1..Len(c.Y) |-> k]) /\ o.ce = <<ex(c.fY)>>)
  \cup (IF o.op # "include" THEN {}
        ELSE LET l(j) == FAbs(LagVal(c, j, c.x))
                 cand == {o.choice[k] + 1 : k \in 1..Len(o.choice)}
                 thr == D(o.thr)
                 from == IF o.succ = 1 THEN c.x ELSE c.Y[1]
                 d(j) == VNorm(VSub(c.Y[j], from))
                 crit(j) == CASE o.crit = "standard" -> l(j) [] o.crit = "distance" -> d(j) [] OTHER -> FMul(FMul(d(j), d(j)), l(j))
                 sure == {j \in cand : FLt(FMul(thr, D("1.00001")), l(j)) /\ FLt(T9, crit(j))}
                 ps == o.pos + 1
             IN Chk(p \o "_include_when_better", Poised(c), sure # {} => o.pos >= 0)
                \cup Chk(p \o "_include_candidate", Poised(c) /\ o.pos >= 0, ps \in cand /\ FLe(FMul(thr, D("0.99999")), l(ps)))
                \cup Chk(p \o "_include_best", Poised(c) /\ o.pos >= 0 /\ ps \in cand, \A j \in sure : FLe(FMul(crit(j), D("0.99999")), crit(ps)))
                \cup Chk(p \o "_include_set", TRUE, o.Y = IF o.pos < 0 THEN c.Y ELSE Put(c.Y, ps, c.x)))

GeoChecks(c, p) ==
  LET pois == Poised(c) /\ SetType(c) \in {0, 1, 2}
      p1 == Len(c.Y)
      rad == MaxOf([j \in 1..p1 |-> VNorm(VSub(c.Y[j], c.Y[1]))])
      at(j) == c.find[j - 1]
      wit(j) == c.wit[j - 1]
      upok(j) == UpperOK(c, j, wit(j), wit(j).dp, wit(j).dm)
      up(j) == Upper(c, j, wit(j), c.del_, wit(j).dp, wit(j).dm)
      rpok(j) == UpperOK(c, j, wit(j), wit(j).rp, wit(j).rm)
      upr(j, d) == Upper(c, j, wit(j), d, wit(j).rp, wit(j).rm)
      tol == D("1e-9")
      r == c.rep
      nR == MaxOf([j \in 1..Len(r.Y) |-> VNorm(VSub(r.Y[j], r.Y[1]))])
  IN  Chk(p \o "_proposal_in_ball", pois, \A j \in 2..p1 : FLe(VNorm(VSub(at(j)[1], c.Y[1])), FMul(c.del_, D("1.0011"))))
      \cup Chk(p \o "_proposal_value", pois,
               \A j \in 2..p1 : LET v == FAbs(LagVal(c, j, at(j)[1])) IN Close(at(j)[2], v, T6, FAdd(ONE, v)))
      \cup Chk(p \o "_proposal_best", pois,
               \A j \in 2..p1 : (Sloped(c, j) /\ upok(j)) => FLe(FSub(FMul(D("0.98"), up(j)), tol), at(j)[2]))
      \cup Chk(p \o "_poised_radius", TRUE, Close(c.poi[2], rad, T12, FAdd(ONE, rad)))
      \cup Chk(p \o "_poised_largest", pois,
               \A j \in 2..p1 : (Sloped(c, j) /\ rpok(j)) => FLe(FSub(FMul(D("0.98"), upr(j, rad)), tol), c.poi[1]))
      \cup Chk(p \o "_poised_attained", pois /\ \A j \in 2..p1 : rpok(j),
               \E j \in 2..p1 : FLe(c.poi[1], FAdd(tol, FMul(D("1.0001"), upr(j, FMul(rad, D("1.0011")))))))
      \cup Chk(p \o "_repair_factors", pois, FactorOK(r))
      \cup Chk(p \o "_repair_reported_once", TRUE, Cardinality({r.replaced[k] : k \in 1..Len(r.replaced)}) = Len(r.replaced))
      \cup Chk(p \o "_repair_center", TRUE, Len(r.Y) = p1 /\ r.Y[1] = c.Y[1])
      \cup Chk(p \o "_repair_only_replaced", Len(r.Y) = p1, \A j \in 1..p1 : (\A k \in 1..Len(r.replaced) : r.replaced[k] + 1 # j) => r.Y[j] = c.Y[j])
      \cup Chk(p \o "_repair_near", Len(r.Y) = p1,
               \A k \in 1..Len(r.replaced) : FLe(VNorm(VSub(r.Y[r.replaced[k] + 1], c.Y[1])), FMul(c.del_, D("1.0011"))))
      \cup Chk(p \o "_repair_far_replaced", Len(r.Y) = p1,
               \A j \in 1..p1 : FLe(VNorm(VSub(r.Y[j], r.Y[1])), FMul(D("1.0011"), FMul(D(c.farfact), c.del_))))
      \cup Chk(p \o "_repair_radius", Len(r.Y) = p1, Close(r.rad, nR, T12, FAdd(ONE, nR)))
      \* when the repair ends by itself no polynomial exceeds the threshold: witnesses of a larger value refute that
      \cup Chk(p \o "_repair_poised", pois /\ FLt(r.imp, D(c.closethr)) /\ Len(r.cand) > 0,
               \A j \in 1..Len(r.cand) : \A k \in 1..Len(r.cand[j]) :
                  LET y == r.cand[j][k]
                      rr == r IN
                  (FLe(VNorm(VSub(y, r.Y[1])), c.del_) /\ FLe(T6, VNorm(LagG(rr, r.L[j + 1]))))
                    => FLe(FAbs(LagVal(rr, j + 1, y)), FMul(D(c.closethr), D("1.03"))))
      \cup UNION {OpChecks(c, c.ops[k], p) : k \in 1..Len(c.ops)}
=============================================================================
