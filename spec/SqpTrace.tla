------------------------------ MODULE SqpTrace ------------------------------
(* Validation of recorded runs of the real sqpdfo against the specification.*)
(*                                                                          *)
(* TRACE_FILE holds a sequence of traces, each a sequence of events         *)
(* (harness/rec.py).  Every trace is one behaviour of this specification:   *)
(* each step consumes one event, advances the model state st (what the      *)
(* specification knows about the run: evaluations made, candidates for the  *)
(* penalty parameter, last trial step, last improvement ...) and evaluates  *)
(* the clauses that constrain the event.  The verdict is total: a clause    *)
(* that fails is recorded in bad with the position of its event, and the    *)
(* walk continues.  Clauses are named <property>_<name>; a clause applies   *)
(* only if the events it needs were recorded.                               *)
(*                                                                          *)
(* Events (k):                                                              *)
(*  start  the call: n, me, mi, nc, x0, lb, ub, free, options, prob         *)
(*  f, c   a call of the user's functions: x, v, ok                         *)
(*  trs    trust-region step: x xnew delta g M f ce ae sl slp rpred act ... *)
(*  small  choice of the best point after a set improvement                 *)
(*  mod    models P built from the set Y with values fY                     *)
(*  hess   Hessian and gradients handed on                                  *)
(*  mult, opt  multipliers and optimality at x                              *)
(*  iter   iteration printout                                               *)
(*  poi, repair  poisedness and repair of the set                           *)
(*  augment, include, swap, replace   operations on the set                 *)
(*  ret, exc   how the call ended;  hist  the history file                  *)
(* xi, nxi, yi are witnesses: positions of the f events of the same points. *)
EXTENDS Poly, Problem, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils

T     == JsonDeserialize(IOEnv.TRACE_FILE)
Which == IOEnv.CLAUSES        \* property whose clauses are evaluated, or "all"

VARIABLES t, i, st, bad, cov
vars == <<t, i, st, bad, cov>>

-----------------------------------------------------------------------------
\* constants of the implementation (sqpdfo.py)
EPSM  == FDec("1e-5")
DMAX  == FDec("1e5")
HALF  == FDec("0.5")
ONE   == FInt(1)
ZERO  == FInt(0)
RealHalf(a) == FMul(a, HALF)
R == INSTANCE SqpRules WITH Add <- FAdd, Sub <- FSub, Mul <- FMul, Le <- FLe, Lt <- FLt, Max <- FMax, Min <- FMin,
       Half <- RealHalf, DMax <- DMAX, DFive <- FInt(5), EpsRad <- EPSM,
       Eta1N <- 1, Eta1D <- 10000, Eta2N <- 9, Eta2D <- 10

D(s) == FDec(s)
T2 == D("1e-2")  T3 == D("1e-3")  T4 == D("1e-4")  T5 == D("1e-5")  T6 == D("1e-6")  T7 == D("1e-7")  T8 == D("1e-8")
T9 == D("1e-9")  T10 == D("1e-10")  T12 == D("1e-12")
BIG == D("1e20")  HUGE == D("1e24")  EPS10 == D("2.22e-15")

Near(a, b, tol) == \/ a = b
                   \/ FLe(FAbs(FSub(a, b)), FMul(tol, FAdd(ONE, FAbs(b))))
VNear(x, y, tol) == /\ Len(x) = Len(y)
                    /\ \/ x = y
                       \/ FLe(VMaxAbs(VSub(x, y)), FMul(tol, FAdd(ONE, VMaxAbs(y))))
AllFin(x) == \A j \in 1..Len(x) : FFin(x[j])
VLe(x, y, tol) == /\ Len(x) = Len(y)
                  /\ \A j \in 1..Len(x) : FLe(x[j], FAdd(y[j], FMul(tol, FAdd(ONE, FMin(FAbs(y[j]), BIG)))))
Tiny(x, bound) == x = <<>> \/ FLe(VMaxAbs(x), bound)

VSum(v) == VDot(v, [j \in 1..Len(v) |-> ONE])
MaxM(M) == VMaxAbs([j \in 1..Len(M) |-> VMaxAbs(M[j])])
Close(a, b, tol, sc) == a = b \/ FLe(FAbs(FSub(a, b)), FMul(tol, sc))
Has(e, k) == k \in DOMAIN e
Max2(a, b) == IF a < b THEN b ELSE a
RECURSIVE NextOf(_, _, _)
NextOf(tr, kinds, p) == IF p > Len(tr) THEN 0 ELSE IF tr[p].k \in kinds THEN p ELSE NextOf(tr, kinds, p + 1)

-----------------------------------------------------------------------------
Tr == T[t]
E  == Tr[i]
S0 == Tr[1]                          \* the start event
NF == Len(S0.free)
Sub(x) == IF Len(x) = S0.n THEN [j \in 1..NF |-> x[S0.free[j]]] ELSE x      \* free components
FreeB(b) == [j \in 1..NF |-> b[S0.free[j]]]                                 \* bounds of the free variables
Fixed == S0.n # NF
PMax == 2 * (((NF + 1) * (NF + 2)) \div 2)          \* most interpolation points (regression models: twice the full set)

\* constraints at the evaluation whose objective event is at position p
CAt(p) == IF p > 0 /\ p + 1 <= Len(Tr) /\ Tr[p + 1].k = "c" THEN Tr[p + 1].v ELSE <<>>
\* constraint residual with slacks: equalities c, inequalities c - slack^2
Resid(c, sl) == LET m == Len(c) - Len(sl) IN
                [j \in 1..Len(c) |-> IF j <= m THEN c[j] ELSE FSub(c[j], FMul(sl[j - m], sl[j - m]))]
CSane(p) == S0.nc = 0 \/ (CAt(p) # <<>> /\ AllFin(CAt(p)) /\ Tiny(CAt(p), HUGE))
FSane(p) == p > 0 /\ Tr[p].ok = 1 /\ FFin(Tr[p].v) /\ FLe(FAbs(Tr[p].v), HUGE) /\ CSane(p)

\* a check: nothing if it does not apply, else its name and outcome
On(p) == Which = "all" \/ Which = p
Chk(name, applies, ok) == IF applies THEN {<<name, ok>>} ELSE {}

-----------------------------------------------------------------------------
(* Model state                                                              *)
St0 == [nf |-> 0,        \* evaluations of the objective so far
        pend |-> 0,      \* position of an objective event whose constraint event is still due
        fail |-> 0,      \* position of the first failed evaluation
        last |-> 0,      \* position of the last objective event
        sig |-> {ONE},   \* candidates for the penalty parameter
        tr |-> 0,        \* position of the last trust-region step
        trf |-> 0,       \* position of its trial evaluation
        impr |-> 0,      \* evaluations since the trial evaluation (set improvement)
        small |-> 0,     \* position of the set improvement after that step
        rep |-> 0, it |-> 0, nit |-> 0, opt |-> 0, mult |-> 0, poi |-> 0,
        mod |-> 0, full |-> 0, seen |-> FALSE]

----------------------------------------------------------------------------
(* The decision on a trust-region step.                                     *)
Step(e) == VSub(e.xnew, e.x)
FullNorm(e) == LET s == VNorm(Step(e)) IN
               IF Len(e.sl) = 0 THEN s ELSE LET z == VNorm(VSub(e.slp, e.sl)) IN FSqrt(FAdd(FMul(s, s), FMul(z, z)))
QCost(e) == LET s == Step(e) IN FAdd(VDot(e.g, s), FMul(HALF, VDot(s, MVec(e.M, s))))

\* candidates for the penalty parameter after the step e (two when the threshold is too close to decide)
SigAfter(sigs, e) ==
  LET q == QCost(e)
      b == IF FEq(e.rpred, 0) THEN ZERO ELSE FDiv(q, FMul(D("0.7"), e.rpred))
      one(s) == {R!NewSigma(s, b, FMul(D("1.5"), s))}
                \cup (IF Near(s, b, T9) THEN {s, FMul(D("1.5"), s)} ELSE {})
  IN UNION {one(s) : s \in sigs}

\* the values entering the decision on the step at p whose trial evaluation is at f, one case per penalty candidate
Cases(p, f) ==
  LET e == Tr[p]
      q == QCost(e)
      fx == Tr[e.xi].v
      fn == Tr[f].v
      c0 == IF S0.nc > 0 THEN VNorm(Resid(CAt(e.xi), e.sl)) ELSE ZERO
      c1 == IF S0.nc > 0 THEN VNorm(Resid(CAt(f), e.slp)) ELSE ZERO
      sn == VNorm(Step(e))
      case(s) == LET m0 == R!Merit(fx, s, c0)
                     m1 == R!Merit(fn, s, c1)
                     pred == IF FLt(e.rpred, 0) THEN FInt(-1) ELSE FSub(FMul(s, e.rpred), q)
                     slop == FMul(T12, FAdd(FAdd(FAbs(m0), FAbs(m1)), FMul(s, FAdd(c0, c1))))
                     pslop == FAdd(FMul(T10, FAdd(FAbs(FMul(s, e.rpred)), FAbs(q))),
                                   FMul(D("1e-13"), FAdd(FMul(VNorm(e.g), sn), FMul(MaxM(e.M), FMul(sn, sn)))))
                 IN [m0 |-> m0, m1 |-> m1, pred |-> pred, slop |-> FAdd(slop, T12), pslop |-> FAdd(pslop, D("1e-18"))]
  IN {case(s) : s \in st.sig}

\* may a step with these values be accepted / be rejected (close to the threshold: both)
MayAccept(c)   == R!Accepts(FAdd(c.m0, c.slop), c.m1, FSub(c.pred, c.pslop)) \/ R!Accepts(FAdd(c.m0, c.slop), c.m1, FAdd(c.pred, c.pslop))
MustAccept(c)  == R!Accepts(FSub(c.m0, c.slop), c.m1, FAdd(c.pred, c.pslop)) /\ FLt(c.pslop, c.pred)
MayVery(c)     == R!VerySuccessful(FAdd(c.m0, c.slop), c.m1, FSub(c.pred, c.pslop)) \/ R!VerySuccessful(FAdd(c.m0, c.slop), c.m1, FAdd(c.pred, c.pslop))
MayNotVery(c)  == ~R!VerySuccessful(FSub(c.m0, c.slop), c.m1, FAdd(c.pred, c.pslop))
MayNoPred(c)   == FLe(c.pred, c.pslop)          \* predicted reduction zero or negative: improve the set instead

MustNoPred(c)  == FLt(c.pred, FNeg(c.pslop))

DNear(a, b) == FLe(FAbs(FSub(a, b)), FMul(T9, FAbs(b)))

\* radii that may follow the step e: dn is the new one
RadiusOK(e, cases, moved, dn) ==
  LET nrm == FullNorm(e)
      act == e.act = 1
  IN IF moved
     THEN \E c \in cases :
             \/ MayVery(c) /\ DNear(dn, R!RadiusVery(e.delta, nrm, act))
             \/ MayNotVery(c) /\ DNear(dn, R!RadiusGood(e.delta, nrm, act))
             \/ DNear(dn, FMin(FMax(FMul(2, nrm), e.delta), DMAX))     \* accepted by replacing a far or close point
     ELSE \/ DNear(dn, R!RadiusReject(e.delta))
          \/ \* reduction by interpolation: between 1/100 and 1/2 of the smaller of radius and step
             /\ FLe(dn, FMul(D("0.5000001"), FMin(e.delta, nrm)))
             /\ FLe(FMul(D("0.0099999"), FMin(e.delta, nrm)), dn)
          \/ \E c \in cases : MayNoPred(c) /\ DNear(dn, e.delta)
     
\* events that show the current iterate (its witness is xi)
\* the predicted reduction is not dominated by rounding
Moderate(e) == FLe(MaxM(e.M), D("1e12")) /\ FLe(VMaxAbs(e.g), D("1e12"))
DecReady == /\ st.tr > 0 /\ st.small = 0 /\ st.trf > 0 /\ Tr[st.tr].xi > 0
            /\ FSane(st.trf) /\ FSane(Tr[st.tr].xi) /\ Moderate(Tr[st.tr])

Revisited(f) == \E p \in 2..(f - 1) : Tr[p].k = "f" /\ VNear(Tr[p].x, Tr[f].x, T6)

CurChecks(xi) ==
  LET p == st.tr  moved == xi = st.trf IN
  Chk("P04_evaluated", On("P04") \/ On("P03"), xi > 0)
  \cup Chk("P04_after_improvement", On("P04") /\ st.small > 0 /\ xi > 0 /\ Tr[st.small].nxi > 0,
           Tr[xi].x = Tr[Tr[st.small].nxi].x)
  \cup (IF ~(On("P04") /\ DecReady /\ xi > 0) THEN {} ELSE
        LET cs == Cases(p, st.trf)
            old == Tr[xi].x = Tr[Tr[p].xi].x
            new == Tr[xi].x = Tr[st.trf].x
        IN Chk("P04_point_law", TRUE, old \/ new)
           \cup Chk("P04_accept_ok", new /\ ~old, \E c \in cs : MayAccept(c))
           \* a good step may be given up only if its point cannot enter the set: it coincides with an evaluated one
           \cup Chk("P04_reject_ok", old /\ ~new, (\E c \in cs : ~MustAccept(c)) \/ Revisited(st.trf)))

----------------------------------------------------------------------------
(* The evolution of the interpolation set.                                  *)
\* the rows of a full model are the objective and the constraints; a single row of a constrained problem is the Lagrangian
ModFull(e) == Len(e.fY) = 1 + S0.nc
Known(e) == \A j \in 1..Len(e.yi) : e.yi[j] > 0
Points(e) == {Tr[e.yi[j]].x : j \in 1..Len(e.yi)}
Capacity(wm) == LET p == CASE S0.degree = "linear" -> NF + 1 [] S0.degree = "diagonal" -> 2 * NF + 1 [] OTHER -> ((NF + 1) * (NF + 2)) \div 2
                IN IF wm = 3 THEN 2 * p ELSE p
Due(o, fac) == /\ (Len(o.glag) = 0 \/ FLe(VMaxAbs(o.glag), FMul(fac, S0.tolg)))
               /\ (Len(o.feas) = 0 \/ FLe(VMaxAbs(o.feas), FMul(fac, S0.tolf)))
\* the models that follow a step: the trial point joins the set, or takes the place of one point, or the set is as before
SetStep(e) ==
  IF ~(On("P24") /\ ModFull(e) /\ st.full > 0 /\ st.tr > 0 /\ st.trf > 0 /\ st.full < st.tr /\ st.rep < st.tr /\ st.impr = 0) THEN {} ELSE
  LET w == Tr[st.full]  tx == Tr[st.trf].x  A == Points(w)  B == Points(e) n0 == Len(w.Y) n1 == Len(e.Y) IN
  IF ~(Known(w) /\ Known(e)) THEN {} ELSE
     Chk("P24_only_trial_enters", TRUE, B \subseteq A \cup {tx})
     \cup Chk("P24_one_leaves", TRUE, Cardinality(A \ B) <= (IF n1 > n0 THEN 0 ELSE 1))
     \cup Chk("P24_trial_enters", TRUE, tx \in B)
     \cup Chk("P24_size", TRUE, n1 = (IF n0 < Capacity(e.wm) THEN n0 + 1 ELSE n0) \/ (n1 = n0 /\ Revisited(st.trf)))
     \cup Chk("P24_first", TRUE, Tr[e.yi[1]].x \in {tx, Tr[w.yi[1]].x})
\* the models that follow an improvement are those of the improved set
SetImproved(e) ==
  Chk("P24_improved_set", On("P24") /\ ModFull(e) /\ st.small > st.tr /\ st.full < st.small, 
      Len(e.Y) = Len(Tr[st.small].nY) /\ \A j \in 1..Len(e.Y) : VNear(e.Y[j], Tr[st.small].nY[j], T9))
SetSmall(e) ==
  Chk("P24_repaired_set", On("P24") /\ st.rep > st.tr, Len(e.Y) = Len(Tr[st.rep].nY) /\ \A j \in 1..Len(e.Y) : VNear(e.Y[j], Tr[st.rep].nY[j], T9))
  \cup Chk("P24_new_points_evaluated", On("P24") /\ st.rep > st.tr /\ st.tr > 0, st.impr = Len(Tr[st.rep].rep))
\* the step led nowhere: nothing was predicted
Still(e) == FEq(e.rpred, 0) /\ \A j \in 1..Len(e.x) : FEq(Step(e)[j], 0)
SetTrs(e) ==
  LET cs == Cases(st.tr, st.trf) IN
  Chk("P24_iterate_first", On("P24") /\ st.full > 0, VNear(Tr[st.full].Y[1], e.x, T9))
  \* no new models since the last step and a set with room: the step promised no reduction, or its point was known
  \cup Chk("P24_grows", On("P24") /\ DecReady /\ st.full > 0 /\ st.full < st.tr /\ Len(Tr[st.full].Y) < Capacity(Tr[st.full].wm),
           (\E c \in cs : MayNoPred(c)) \/ Revisited(st.trf))
  \* no improvement although one was due
  \cup Chk("P24_improves", On("P24") /\ st.small <= st.tr /\ st.opt > st.tr, 
           ~Due(Tr[st.opt], D("0.999999")) /\ (DecReady => ~Still(Tr[st.tr]) /\ \E c \in cs : ~MustNoPred(c)))
SetRepair(e) ==
  Chk("P24_improved_when_due", On("P24") /\ st.opt > st.tr /\ (st.tr > 0 => DecReady),
      \/ Due(Tr[st.opt], D("1.000001"))
      \/ st.tr > 0 /\ FLe(Tr[st.tr].delta, D("1.1e-8"))
      \/ st.tr > 0 /\ \E c \in Cases(st.tr, st.trf) : MayNoPred(c))
\* success is declared only after the geometry of the set was examined: poisedness times radius is small
SetRet(e) ==
  Chk("P24_geometry_examined", On("P24") /\ e.flag = 0 /\ S0.verbose < 4,
      /\ st.poi > st.tr \/ st.rep > st.tr
      /\ LET p == Tr[IF st.rep > st.poi THEN st.rep ELSE st.poi] IN FLe(FMul(p.poised, p.rad), D("1.000001e-3")))

----------------------------------------------------------------------------
(* Clauses by event                                                         *)
FChecks(e) ==
  LET trial == st.tr > 0 /\ st.trf = 0 IN
  Chk("P01_f_dim", On("P01"), Len(e.x) = S0.n)
  \cup Chk("P01_f_finite", On("P01"), AllFin(e.x))
  \cup Chk("P01_pair_order", On("P01") /\ S0.nc > 0, st.pend = 0)
  \cup Chk("P11_no_eval_after_failure", On("P11"), st.fail = 0)
  \cup Chk("P05_fixed", On("P05") \/ On("P15"), \A j \in 1..S0.n : S0.lb[j] = S0.ub[j] => Near(e.x[j], S0.lb[j], T12))
  \* until a trust-region step was computed, all points lie in the bounds (initial simplex)
  \cup Chk("P05_init_in_bounds", On("P05") /\ ~st.seen /\ st.nf <= NF, VLe(e.x, S0.ub, T12) /\ VLe(S0.lb, e.x, T12))
  \cup Chk("P05_first_is_x0", On("P05") /\ st.nf = 0 /\ S0.haslb = 0 /\ S0.hasub = 0, VNear(e.x, S0.x0, T12))
  \cup Chk("P05_trial_is_evaluated", (On("P05") \/ On("P01")) /\ trial, VNear(Sub(e.x), Tr[st.tr].xnew, T12))
  \cup Chk("P05_trial_eval_in_bounds", On("P05") /\ trial, VLe(e.x, S0.ub, T7) /\ VLe(S0.lb, e.x, T7))

CChecks(e) ==
  Chk("P01_c_follows_f", On("P01"), i > 1 /\ st.pend = i - 1 /\ Tr[i - 1].k = "f")
  \cup Chk("P01_c_same_point", On("P01") /\ i > 1 /\ Tr[i - 1].k = "f", e.x = Tr[i - 1].x)

\* a step component may be moved to a bound at distance 1e-5
Snap == IF S0.haslb = 0 /\ S0.hasub = 0 THEN ZERO ELSE FMul(D("2e-5"), FSqrt(FInt(NF)))
Unbounded == \A j \in 1..S0.n : FLe(S0.lb[j], D("-1e19")) /\ FLe(D("1e19"), S0.ub[j])
\* steps of one part: no constraints, constraints already satisfied, or no freedom left beside the constraints
Single(e) == \/ S0.nc = 0
             \/ Unbounded /\ S0.mi = 0 /\ e.xi > 0 /\ CSane(e.xi) /\ (VMaxAbs(CAt(e.xi)) = ZERO \/ S0.nc >= NF)
\* a step that ran into a bound continues along it: its parts together are at most twice as long
OnBound(e) == \E j \in 1..Len(e.x) : FLe(FMin(FAbs(FSub(e.xnew[j], e.lb[j])), FAbs(FSub(e.xnew[j], e.ub[j]))), T6)
\* what moving components onto bounds that are 1e-5 away may add to the model
SnapGain(e, s) == LET at(j) == e.xnew[j] = e.lb[j] \/ e.xnew[j] = e.ub[j]
                      d(j) == IF at(j) /\ FLe(FAbs(s[j]), T5) THEN FMul(FAbs(s[j]), FAdd(FAbs(e.g[j]), FMul(MaxM(e.M), FMul(FInt(Len(s)), VMaxAbs(s))))) ELSE ZERO
                  IN VMaxAbs([j \in 1..Len(s) |-> FMul(FInt(Len(s)), d(j))])
Tame(e) == FLe(MaxM(e.M), D("1e6")) /\ FLe(VMaxAbs(e.g), D("1e6"))
AtBoundary(e, sn) == IF S0.nc = 0 THEN FLe(FAdd(FMul(e.delta, FAdd(ONE, T6)), FMul(T12, FAdd(ONE, VMaxAbs(e.x)))), sn)
                     ELSE FLt(T3, e.delta) /\ FLe(FMul(e.delta, FSub(ONE, T10)), sn)
Inside(e, sn) == FLt(sn, FSub(FMul(e.delta, D("0.99")), T7))

\* at the initial point the slack of a satisfied inequality is the square root of its value, that of a violated one zero
InitSlack(e) == Chk("P16_initial_slack", On("P16") /\ S0.mi > 0 /\ st.tr = 0 /\ st.small = 0 /\ Len(e.sl) = S0.mi
                                         /\ Tr[2].k = "f" /\ FSane(2),
                    \A j \in 1..S0.mi : Near(e.sl[j], FSqrt(FMin(BIG, FMax(ZERO, CAt(2)[S0.nc - S0.mi + j]))), T9))

TrsChecks(e) ==
  LET p == st.tr
      havef == e.xi > 0
      s == Step(e)
      sn == VNorm(s)
      q == QCost(e)
  IN CurChecks(e.xi) \cup InitSlack(e) \cup SetTrs(e)
     \cup Chk("P04_f_is_value", (On("P04") \/ On("P03")) /\ havef /\ FSane(e.xi), Near(e.f, Tr[e.xi].v, T12))
     \cup Chk("P04_c_is_value", (On("P04") \/ On("P03")) /\ havef /\ S0.nc > 0 /\ FSane(e.xi), VNear(e.ce, CAt(e.xi), T12))
     \cup Chk("P04_unconstrained_monotone", On("P04") /\ S0.nc = 0 /\ p > 0, FLe(e.f, Tr[p].f))
     \cup Chk("P02_within_miter", On("P02"), e.niter <= S0.miter + (IF st.small > 0 THEN 1 ELSE 0))
     \cup Chk("P02_niter_step", On("P02") /\ p > 0, e.niter > Tr[p].niter /\ e.niter <= Tr[p].niter + 2)
     \cup Chk("P02_within_msimul", On("P02") /\ p > 0, st.nf - st.impr < S0.msimul)
     \cup Chk("P01_nsimul", On("P01"), e.nsimul = st.nf)
     \cup Chk("P01_one_trial", On("P01") /\ p > 0, st.trf > 0)
     \cup Chk("P01_no_stray_evaluations", On("P01") /\ p > 0 /\ st.small = 0, st.impr = 0)
     \cup Chk("P05_x_in_bounds", On("P05"), VLe(e.x, SubSeq(e.ub, 1, Len(e.x)), T7) /\ VLe(SubSeq(e.lb, 1, Len(e.x)), e.x, T7))
     \cup Chk("P05_trial_in_bounds", On("P05"), VLe(e.xnew, SubSeq(e.ub, 1, Len(e.xnew)), T7) /\ VLe(SubSeq(e.lb, 1, Len(e.xnew)), e.xnew, T7))
     \cup Chk("P06_radius_positive", On("P06"), FLt(0, e.delta))
     \cup Chk("P06_radius_max", On("P06"), FLe(e.delta, DMAX))
     \cup Chk("P06_radius_min", On("P06"), FLe(FMul(D("0.999999"), T10), e.delta))
     \cup Chk("P06_step_in_radius", On("P06") /\ S0.nc = 0, FLe(sn, FAdd(Snap, FMul(IF OnBound(e) THEN D("2.002") ELSE D("1.001"), e.delta))))
     \cup Chk("P06_step_in_radius_c", On("P06") /\ S0.nc > 0, FLe(sn, FAdd(Snap, FMul(D("2.002"), e.delta))))
     \* the boundary flag that decides on the growth of the radius (steps that are not composed of two parts, far from bounds)
     \cup Chk("P06_boundary_reported", On("P06") /\ Single(e), (AtBoundary(e, sn) => e.act = 1) /\ (Inside(e, sn) => e.act = 0))
     \cup Chk("P06_model_not_worse", On("P06") /\ S0.nc = 0 /\ FLe(MaxM(e.M), D("1e12")), 
              FLe(q, FAdd(SnapGain(e, s), FMul(T9, FAdd(FAdd(ONE, FMul(VNorm(e.g), sn)), FMul(FMul(sn, sn), MaxM(e.M)))))))
     \cup Chk("P06_rpred_bounded", On("P06") /\ S0.nc > 0 /\ FSane(e.xi),
              FLe(e.rpred, FMul(D("1.000001"), FAdd(T12, VNorm(Resid(CAt(e.xi), e.sl))))))
     \cup Chk("P06_radius_law", On("P06") /\ DecReady /\ havef,
              LET cs == Cases(p, st.trf) IN
              \/ RadiusOK(Tr[p], cs, Tr[e.xi].x # Tr[Tr[p].xi].x, e.delta)
              \/ Tr[st.trf].x = Tr[Tr[p].xi].x /\ RadiusOK(Tr[p], cs, TRUE, e.delta))
     \cup Chk("P06_radius_after_improvement", On("P06") /\ st.small > 0 /\ st.rep > p, DNear(e.delta, Tr[st.rep].delta))
     \cup Chk("P16_slack_law", On("P16") /\ S0.mi > 0 /\ p > 0 /\ havef /\ st.small = 0 /\ st.trf > 0 /\ Tr[p].xi > 0
                               /\ CSane(e.xi) /\ Len(e.sl) = S0.mi,
              LET moved == Tr[e.xi].x # Tr[Tr[p].xi].x
                  m == S0.nc - S0.mi
                  c == CAt(e.xi)
                  law(j) == IF FEq(Tr[p].slp[j], 0) /\ FLt(T2, c[m + j])
                            THEN FLe(0, e.sl[j]) /\ Near(FMul(e.sl[j], e.sl[j]), c[m + j], T9)
                            ELSE Near(e.sl[j], Tr[p].slp[j], T12)
              IN \/ moved /\ \A j \in 1..S0.mi : law(j)
                 \/ ~moved /\ VNear(e.sl, Tr[p].sl, T12)
                 \/ Tr[e.xi].x = Tr[st.trf].x /\ Tr[e.xi].x = Tr[Tr[p].xi].x)
     \cup Chk("P16_slacks_real", On("P16") /\ S0.mi > 0, Len(e.sl) = S0.mi /\ AllFin(e.sl) /\ \A j \in 1..S0.mi : FLe(FNeg(T6), e.sl[j]))
     \cup Chk("P16_slacks_kept_by_improvement", On("P16") /\ S0.mi > 0 /\ st.small > 0, VNear(e.sl, Tr[st.small].sl, T12))

SmallChecks(e) ==
  LET n == Len(e.Y)
      inb(j) == VLe(e.Y[j], FreeB(e.ub), ZERO) /\ VLe(FreeB(e.lb), e.Y[j], ZERO)
      sg == FFloor(e.sigma)
      cn(j) == IF S0.nc = 0 THEN ZERO ELSE VNorm(Resid(e.ceY[j], e.sl))
      mer(j) == FAdd(e.fY[j], FMul(sg, cn(j)))
      new == CHOOSE j \in 0..n : (j > 0 /\ e.nxi = e.yi[j]) \/ (j = 0 /\ \A l \in 1..n : e.nxi # e.yi[l])
      m1 == mer(1)
      tolm(j) == FMul(T9, FAdd(FAbs(e.fY[j]), FMul(sg, cn(j))))
  IN CurChecks(e.xi) \cup SetSmall(e)
     \cup Chk("P04_small_in_set", On("P04"), new > 0)
     \cup Chk("P04_small_not_worse", On("P04") /\ new > 0, FLe(mer(new), FAdd(m1, tolm(1))))
     \cup Chk("P04_small_is_best", On("P04") /\ new > 0,
              \A j \in 1..n : inb(j) => FLe(mer(new), FAdd(mer(j), FAdd(tolm(j), tolm(new)))))
     \cup Chk("P05_small_in_bounds", On("P05") /\ new > 1, inb(new))
     \cup Chk("P04_small_f", (On("P04") \/ On("P03")) /\ e.nxi > 0 /\ FSane(e.nxi), Near(e.f, Tr[e.nxi].v, T12))
     \cup Chk("P04_small_c", (On("P04") \/ On("P03")) /\ e.nxi > 0 /\ S0.nc > 0 /\ FSane(e.nxi), VNear(e.ce, CAt(e.nxi), T12))
     \cup Chk("P04_sigma", On("P04") /\ S0.nc > 0 /\ FLe(e.sigma, D("1e6")), \E s \in st.sig : Near(e.sigma, s, T6))
     \cup Chk("P09_small_first", On("P09"), e.nY # <<>> /\ e.nY[1] = e.nx)
     \cup Chk("P09_small_permutes", On("P09"), {e.nY[j] : j \in 1..Len(e.nY)} = {e.Y[j] : j \in 1..n} /\ Len(e.nY) = n)

\* the first q scaled monomials at point j of the set
Mono(e, j, q) == LET z == MArg(e.Y[j], e.Y[1], e.shift) f == Phi(z) IN
                 [k \in 1..q |-> IF e.shift = 1 THEN FMul(e.scale[k], f[k]) ELSE f[k]]
Poised(e) == LET n == Len(e.Y)  WT == e.W
                 q == IF e.wm = 1 /\ n = NF + 1 THEN NF + 1 ELSE Len(e.P[1]) IN      \* WT[k] = column k of the right inverse
  /\ Len(WT) = n
  /\ \A k \in 1..n : Len(WT[k]) = q /\ FLe(VMaxAbs(WT[k]), FInt(1000))
  /\ \A j \in 1..n : LET m == Mono(e, j, q) IN
        \A k \in 1..n : FLe(FAbs(FSub(VDot(m, WT[k]), IF j = k THEN ONE ELSE ZERO)), T6)
ModChecks(e) ==
  LET n == Len(e.Y)
      q == Full(NF)
      exact == e.wm # 3 \/ n <= q
  IN SetStep(e) \cup SetImproved(e) \cup Chk("P09_points_evaluated", On("P09"), \A j \in 1..n : e.yi[j] > 0)
     \cup Chk("P09_values_match", On("P09") /\ ModFull(e),
              \A j \in 1..n : e.yi[j] > 0 /\ FSane(e.yi[j]) => Near(e.fY[1][j], Tr[e.yi[j]].v, T12))
     \cup Chk("P09_cvalues_match", On("P09") /\ ModFull(e) /\ S0.nc > 0,
              \A j \in 1..n : e.yi[j] > 0 /\ FSane(e.yi[j]) => VNear([l \in 1..S0.nc |-> e.fY[1 + l][j]], CAt(e.yi[j]), T12))
     \cup Chk("P09_count", On("P09"), n >= NF + 1 /\ n <= PMax)
     \* if the set is poised for the monomials of the model (e.W, a witness, is a right inverse of moderate size of the
     \* matrix of scaled monomials at the points), the model takes the given values at the points
     \cup Chk("P09_interpolates", On("P09") /\ exact /\ e.W # <<>> /\ Poised(e),
              \A r \in 1..Len(e.fY) : (AllFin(e.fY[r]) /\ Tiny(e.fY[r], HUGE)) =>
                 \A j \in 1..n : FLe(FAbs(FSub(VDot(e.P[r], Mono(e, j, Len(e.P[r]))), e.fY[r][j])),
                                     FMul(T7, FAdd(T6, VMaxAbs(e.fY[r])))))

\* moderate data: rounding does not dominate the update
BfgsSane(e) == /\ FLe(MaxM(e.M), D("1e6")) /\ e.M0 # <<>> /\ FLe(MaxM(e.M0), D("1e6")) /\ FLe(VMaxAbs(e.g), D("1e6"))
               /\ FLe(VNorm(e.s), FInt(1000)) /\ \A r \in 1..Len(e.M0) : FLe(T3, e.M0[r][r])
               /\ FLe(FMul(FMul(T6, MaxM(e.M0)), VDot(e.s, e.s)), VDot(e.s, MVec(e.M0, e.s)))
\* the change of the gradient of the Lagrangian, damped by Powell's rule
LagGrad(g, ae, lm) == IF S0.nc = 0 THEN g ELSE VAdd(g, MTVec(ae, SubSeq(lm, NF + 1, NF + S0.nc)))
LagChange(e) == VSub(LagGrad(e.g, e.ae, e.lm), LagGrad(e.g0, e.ae0, e.lm))
Secant(e) == LET y == LagChange(e) Hs == MVec(e.M0, e.s) ys == VDot(y, e.s) sHs == VDot(e.s, Hs)
                 pc == FDiv(FMul(D("0.8"), sHs), FSub(sHs, ys))
             IN IF FLt(ys, FMul(D("0.2"), sHs)) THEN VAdd(VScale(pc, y), VScale(FSub(ONE, pc), Hs)) ELSE y
Restart(e) == S0.restart > 0 /\ e.nsimul = (e.nsimul \div S0.restart) * S0.restart
SecantSane(e) ==
  /\ BfgsSane(e) /\ Len(e.lm) = NF + S0.nc /\ AllFin(e.lm) /\ FLe(VMaxAbs(e.lm), D("1e6"))
  /\ Len(e.g0) = NF /\ AllFin(e.g0) /\ FLe(VMaxAbs(e.g0), D("1e6"))
  /\ Len(e.ae) = S0.nc /\ Len(e.ae0) = S0.nc /\ (S0.nc > 0 => FLe(MaxM(e.ae), D("1e6")) /\ FLe(MaxM(e.ae0), D("1e6")))
  /\ FLt(T8, VNorm(e.s))
  /\ LET y == Secant(e) IN FLt(FMul(T6, FMul(VNorm(y), VNorm(e.s))), VDot(y, e.s))
RECURSIVE Comb(_, _, _), AbsComb(_, _, _)
Comb(P, lm, k) == IF k = 1 THEN P[1] ELSE VAdd(Comb(P, lm, k - 1), VScale(lm[NF + k - 1], P[k]))
AbsComb(P, lm, k) == IF k = 1 THEN VMaxAbs(P[1]) ELSE FAdd(AbsComb(P, lm, k - 1), FMul(FAbs(lm[NF + k - 1]), VMaxAbs(P[k])))
VAll(v, tol) == FLe(VMaxAbs(v), tol)
LagSane(e, fu) == /\ S0.nc > 0 /\ Len(fu.P) = 1 + S0.nc /\ Len(fu.fY) = 1 + S0.nc /\ Len(e.lm) = NF + S0.nc
                  /\ AllFin(e.lm) /\ FLe(VMaxAbs(e.lm), D("1e6"))
                  /\ \A k \in 1..(1 + S0.nc) : AllFin(fu.fY[k]) /\ Tiny(fu.fY[k], D("1e8"))
                  /\ fu.W # <<>> /\ FLe(MaxM(fu.W), FInt(1000))
HessChecks(e) ==
  LET m == Tr[st.mod]  fu == Tr[st.full]
      shape == e.M # <<>> /\ Len(e.M) = NF /\ \A r \in 1..NF : Len(e.M[r]) = NF
  IN Chk("P20_shape", On("P20"), shape)
     \cup Chk("P20_finite", On("P20") /\ shape, \A r \in 1..NF : AllFin(e.M[r]))
     \cup Chk("P20_symmetric", On("P20") /\ shape, \A r \in 1..NF : \A s \in 1..NF :
                FLe(FAbs(FSub(e.M[r][s], e.M[s][r])), FMul(T8, FAdd(T6, FAdd(FAbs(e.M[r][s]), FAdd(FAbs(e.M[r][r]), FAbs(e.M[s][s])))))))
     \cup Chk("P20_model_hessian", On("P20") /\ shape /\ S0.hess = "model" /\ st.mod > 0,
              LET H == MHess(m.P[1], NF, m.scale, m.shift) IN
              \A r \in 1..NF : VNear(e.M[r], H[r], T7))
     \* the model of the Lagrangian is the combination of the models of the objective and of the constraints, slack or not
     \cup Chk("P20_lagrangian_hessian", On("P20") /\ shape /\ S0.hess = "model" /\ e.null = 0 /\ st.full > 0 /\ LagSane(e, fu),
              LET H == MHess(Comb(fu.P, e.lm, 1 + S0.nc), NF, fu.scale, fu.shift)
                  V == FAdd(ONE, AbsComb(fu.fY, e.lm, 1 + S0.nc))
                  amp == IF fu.shift = 1 THEN VMaxAbs(SubSeq(fu.scale, 2, Len(fu.scale))) ELSE ONE
                  tol == FAdd(FMul(D("1e-10"), FMul(V, FMax(ONE, FMul(amp, amp)))),
                              FMul(T6, FMul(FMax(ONE, FMul(amp, amp)), AbsComb(fu.P, e.lm, 1 + S0.nc))))
              IN \A r \in 1..NF : VAll(VSub(e.M[r], H[r]), tol))
     \* with the multipliers computed last
     \cup Chk("P20_multipliers", On("P20") /\ S0.nc > 0 /\ st.mult > 0, VNear(e.lm, Tr[st.mult].lm, T9))
     \* the quasi-Newton matrix starts again at every multiple of bfgs_restart evaluations, and takes the change of the gradient
     \* of the Lagrangian (damped) along the step otherwise
     \cup Chk("P20_bfgs_restart", On("P20") /\ shape /\ S0.hess = "bfgs" /\ e.null = 0 /\ Restart(e),
              \A r \in 1..NF : \A s \in 1..NF : FEq(e.M[r][s], IF r = s THEN ONE ELSE ZERO))
     \cup Chk("P20_bfgs_lagrangian", On("P20") /\ shape /\ S0.hess = "bfgs" /\ e.null = 0 /\ ~Restart(e) /\ SecantSane(e),
              LET b == Secant(e) z == MVec(e.M, e.s) IN
              \A r \in 1..NF : FLe(FAbs(FSub(z[r], b[r])),
                    FMul(T6, FAdd(VMaxAbs(b), FAdd(T6, FMul(MaxM(e.M), VMaxAbs(e.s)))))))
     \cup Chk("P20_bfgs_curvature", On("P20") /\ shape /\ S0.hess = "bfgs" /\ BfgsSane(e), \A r \in 1..NF : FLt(0, e.M[r][r]))
     \cup Chk("P09_gradient", (On("P09") \/ On("P20")) /\ st.full > 0,
              LET G == MGrad(fu.P[1], fu.Y[1], fu.Y[1], fu.scale, fu.shift) IN VNear(e.g, G, T7))
     \cup Chk("P09_jacobian", (On("P09") \/ On("P20")) /\ st.full > 0 /\ S0.nc > 0,
              Len(e.ae) = S0.nc /\ \A r \in 1..S0.nc :
                 LET G == MGrad(fu.P[1 + r], fu.Y[1], fu.Y[1], fu.scale, fu.shift) IN VNear(e.ae[r], G, T7))

\* the bound multipliers are zero off the bounds and have the right sign on them (near: within tol)
BndLow(x, lb, tol) == FLe(FAbs(FSub(x, lb)), tol)
LmSigns(x, lb, ub, lm, n) ==
  \A j \in 1..n :
    /\ (~BndLow(x[j], lb[j], T5) /\ ~BndLow(x[j], ub[j], T5)) => FEq(lm[j], 0)
    /\ (BndLow(x[j], lb[j], T7) /\ ~BndLow(x[j], ub[j], T5)) => FLe(lm[j], ZERO)
    /\ (BndLow(x[j], ub[j], T7) /\ ~BndLow(x[j], lb[j], T5)) => FLe(ZERO, lm[j])

\* The multipliers minimise the norm of the normal equations A(A'lm + g) over the multipliers allowed by the bounds, where
\* the rows of A are the unit rows of the bounds and the constraint gradients (with the derivatives of the slacks).
\* K is a witness: the inverse of AA' (only well-conditioned cases are decided).
MultA(e) ==
  LET n == Len(e.x) m == Len(e.ae) ns == Len(e.sl)
      ext(v, k) == v \o [l \in 1..ns |-> IF l = k - (m - ns) THEN FMul(-2, e.sl[l]) ELSE ZERO]
      unit(j) == [l \in 1..(n + ns) |-> IF l = j THEN ONE ELSE ZERO]
      lo0(j) == FLe(e.lb[j], FNeg(BIG)) \/ (FLt(e.ub[j], BIG) /\ FLt(FAbs(FSub(e.x[j], e.ub[j])), T6))
      up0(j) == FLe(BIG, e.ub[j]) \/ (FLt(FNeg(BIG), e.lb[j]) /\ FLt(FAbs(FSub(e.x[j], e.lb[j])), T6))
      idx == SelectSeq([j \in 1..(n + m) |-> j], LAMBDA j : j > n \/ ~(lo0(j) /\ up0(j)))
  IN [idx |-> idx, lo |-> [k \in 1..Len(idx) |-> IF idx[k] <= n /\ lo0(idx[k]) THEN 1 ELSE 0],
      up |-> [k \in 1..Len(idx) |-> IF idx[k] <= n /\ up0(idx[k]) THEN 1 ELSE 0],
      A |-> [k \in 1..Len(idx) |-> IF idx[k] <= n THEN unit(idx[k]) ELSE ext(e.ae[idx[k] - n], idx[k] - n)],
      g |-> e.g \o [l \in 1..ns |-> ZERO]]
MultOK(e, a, AA) ==
  LET q == Len(a.idx)
      lm == [k \in 1..q |-> e.lm[a.idx[k]]]
      w == MVec(a.A, VAdd(a.g, MTVec(a.A, lm)))
      v == MVec(AA, w)
      sc == FAdd(ONE, MaxM(AA))
      tol == FMul(T7, FMul(FMul(sc, sc), FAdd(FAdd(ONE, VMaxAbs(lm)), VMaxAbs(e.g))))
  IN \A k \in 1..q : \/ FLe(FAbs(v[k]), tol)
                     \/ a.up[k] = 1 /\ FLe(FAbs(lm[k]), T9) /\ FLe(v[k], tol)
                     \/ a.lo[k] = 1 /\ FLe(FAbs(lm[k]), T9) /\ FLe(FNeg(tol), v[k])
MultChecks(e) ==
  LET n == Len(e.x) m == Len(e.ae) a == MultA(e) q == Len(a.idx)
      AA == [r \in 1..q |-> [s \in 1..q |-> VDot(a.A[r], a.A[s])]]
      sane == /\ Len(e.lm) = n + m /\ q > 0 /\ Len(e.K) = q /\ FLe(MaxM(AA), D("1e6")) /\ FLe(VMaxAbs(e.g), D("1e6"))
              /\ AllFin(e.lm)
              /\ FLe(MaxM(e.K), D("1e3"))
              /\ \A r \in 1..q : LET z == MVec(AA, e.K[r]) IN
                   \A s \in 1..q : FLe(FAbs(FSub(z[s], IF r = s THEN ONE ELSE ZERO)), T6)
  IN
  Chk("P08_length", On("P08"), Len(e.lm) = n + m)
  \cup Chk("P08_finite", On("P08"), AllFin(e.lm))
  \cup Chk("P08_least_squares", On("P08") /\ sane, MultOK(e, a, AA))
  \cup Chk("P08_bound_signs", On("P08") /\ Len(e.lm) = n + m, LmSigns(e.x, e.lb, e.ub, e.lm, n))
  \cup Chk("P08_true_bounds", (On("P08") \/ On("P15")) /\ Len(e.lm) = n + m /\ n = NF,
           LmSigns(e.x, FreeB(S0.lb), FreeB(S0.ub), e.lm, n))
  \* a multiplier of a bound may be nonzero exactly where the point is on the bound
  \cup Chk("P08_active_bounds", (On("P08") \/ On("P15")) /\ n = NF,
           LET lb == FreeB(S0.lb) ub == FreeB(S0.ub)
               lo0(j) == FLe(e.lb[j], FNeg(BIG)) \/ (FLt(e.ub[j], BIG) /\ FLt(FAbs(FSub(e.x[j], e.ub[j])), T6))
               up0(j) == FLe(BIG, e.ub[j]) \/ (FLt(FNeg(BIG), e.lb[j]) /\ FLt(FAbs(FSub(e.x[j], e.lb[j])), T6))
           IN \A j \in 1..n :
                /\ BndLow(e.x[j], lb[j], T7) /\ ~BndLow(e.x[j], ub[j], T4) => ~lo0(j)
                /\ BndLow(e.x[j], ub[j], T7) /\ ~BndLow(e.x[j], lb[j], T4) => ~up0(j)
                /\ ~BndLow(e.x[j], lb[j], T4) /\ ~BndLow(e.x[j], ub[j], T4) => lo0(j) /\ up0(j))

OptChecks(e) ==
  LET n == Len(e.x)
      m == Len(e.ae)
      lmb == [j \in 1..n |-> IF BndLow(e.x[j], e.lb[j], T5) \/ BndLow(e.x[j], e.ub[j], T5) THEN e.lm[j] ELSE ZERO]
      gl == IF m = 0 THEN VAdd(e.g, lmb) ELSE VAdd(VAdd(e.g, lmb), MTVec(e.ae, SubSeq(e.lm, n + 1, n + m)))
  IN CurChecks(e.xi) \cup InitSlack(e)
     \cup Chk("P07_glag", (On("P07") \/ On("P08")) /\ Len(e.lm) = n + m,
              LET sc == FAdd(FAdd(ONE, VMaxAbs(e.g)), FMul(VMaxAbs(e.lm), FAdd(ONE, MaxM(e.ae))))
              IN \A j \in 1..n : Close(e.glag[j], gl[j], T9, FAdd(FAdd(ONE, FAbs(gl[j])), FMul(T4, sc))))
     \cup Chk("P07_feas", (On("P07") \/ On("P16")) /\ e.xi > 0 /\ S0.nc > 0 /\ FSane(e.xi),
              VNear(e.feas, Resid(CAt(e.xi), e.sl), T9))

IterChecks(e) ==
  LET o == Tr[st.opt] IN
  Chk("P13_iter_nsimul", On("P13") \/ On("P01"), e.nsimul = st.nf)
  \cup Chk("P13_iter_order", On("P13") /\ st.it > 0, e.niter >= Tr[st.it].niter /\ e.niter <= Tr[st.it].niter + 1)
  \cup Chk("P13_iter_f", On("P13") /\ st.opt > 0, e.fi > 0)
  \* the merit shown: that of the initial point, after a step that of its trial point
  \cup Chk("P13_first_merit", On("P13") /\ st.it = 0 /\ st.tr = 0 /\ st.fail = 0 /\ S0.mi = 0,
           \E p \in 2..(i - 1) : Tr[p].k = "f" /\ (~FSane(p) \/ (Near(Tr[p].v, e.f, T12)
                               /\ Near(e.merit, IF S0.nc = 0 THEN Tr[p].v ELSE FAdd(Tr[p].v, VNorm(CAt(p))), T12))))
  \cup Chk("P13_step_merit", On("P13") /\ st.trf > 0 /\ st.impr = 0 /\ FSane(st.trf) /\ Tr[st.tr].xi > 0 /\ Tame(Tr[st.tr])
                             /\ (\A g \in st.sig : FLe(g, D("1e6"))),
           \E c \in Cases(st.tr, st.trf) : Close(e.merit, c.m1, T9, FAdd(FAdd(ONE, FMul(3, FAbs(Tr[st.trf].v))), FMul(FInt(1000), FAbs(FSub(c.m1, Tr[st.trf].v))))))

RepairChecks(e) ==
  LET n == Len(e.Y)
      far == FMul(FMul(D("1.001"), FMax(e.farfact, ONE)), e.delta)
  IN SetRepair(e) \cup Chk("P09_repair_keeps_center", On("P09"), e.nY[1] = e.Y[1])
     \cup Chk("P09_repair_size", On("P09"), Len(e.nY) = n)
     \cup Chk("P09_repair_reported_once", On("P09"), Cardinality({e.rep[r] : r \in 1..Len(e.rep)}) = Len(e.rep))
     \cup Chk("P09_repair_only_replaced", On("P09") /\ Len(e.nY) = n,
              \A j \in 1..n : (\A r \in 1..Len(e.rep) : e.rep[r] + 1 # j) => e.nY[j] = e.Y[j])
     \cup Chk("P09_repair_close", On("P09") /\ Len(e.nY) = n,
              \A r \in 1..Len(e.rep) : FLe(VNorm(VSub(e.nY[e.rep[r] + 1], e.nY[1])), FMul(D("1.001"), FMul(e.delta, FSqrt(FInt(NF))))))
     \cup Chk("P09_repair_no_far", On("P09") /\ Len(e.nY) = n, \A j \in 1..n : FLe(VMaxAbs(VSub(e.nY[j], e.nY[1])), far))
     \cup Chk("P06_repair_radius", On("P06") /\ st.tr > 0,
              FLe(e.delta, FMul(D("1.000001"), FMax(FMax(FMul(5, Tr[st.tr].delta), FMul(2, FullNorm(Tr[st.tr]))), EPSM))))

----------------------------------------------------------------------------
(* True first-order conditions at the returned point, from the problem's    *)
(* own gradients.                                                           *)
SmoothProblem == Has(S0, "prob") /\ Smooth(S0.prob.f) /\ \A j \in 1..S0.nc : Smooth(S0.prob.c[j])
RECURSIVE AddLm(_, _, _, _)
AddLm(g, x, lm, j) == IF j > S0.nc THEN g
                      ELSE AddLm(VAdd(g, VScale(lm[S0.n + j], Grad(S0.prob.c[j], x))), x, lm, j + 1)
\* gradient of the Lagrangian, less what a correctly signed bound multiplier can cancel
KKT(x, lm) ==
  LET g == AddLm(Grad(S0.prob.f, x), x, lm, 1)
      lo(j) == FLe(x[j], FAdd(S0.lb[j], T5))
      up(j) == FLe(FSub(S0.ub[j], T5), x[j])
      r(j) == IF lo(j) /\ up(j) THEN ZERO
              ELSE IF lo(j) THEN FMin(g[j], ZERO)
              ELSE IF up(j) THEN FMax(g[j], ZERO) ELSE g[j]
  IN VMaxAbs([j \in 1..S0.n |-> r(j)])

\* A strictly convex quadratic over a polyhedron, with its minimiser as a witness: strict diagonal dominance, feasibility and the
\* first-order conditions are checked here, so the witness is the only minimiser.
RECURSIVE CrossAbs(_, _, _)
CrossAbs(cr, j, k) == IF k > Len(cr) THEN ZERO
                      ELSE FAdd(IF cr[k][1] + 1 = j \/ cr[k][2] + 1 = j THEN FAbs(cr[k][3]) ELSE ZERO, CrossAbs(cr, j, k + 1))
ConvexProblem ==
  LET f == S0.prob.f x == S0.star lm == [j \in 1..S0.n |-> ZERO] \o S0.starlm IN
  /\ Has(S0, "star") /\ f.kind = "quad" /\ Len(f.d) = S0.n /\ S0.mi = 0 /\ S0.miter >= 1000 /\ S0.msimul >= 1000
  /\ \A j \in 1..S0.n : FLe(FAdd(D("0.05"), CrossAbs(Opt(f, "cross", <<>>), j, 1)), f.d[j])
  /\ \A j \in 1..S0.nc : S0.prob.c[j].kind = "lin" /\ FLe(FAbs(FAdd(VDot(S0.prob.c[j].a, x), S0.prob.c[j].const)), T9)
  /\ \A j \in 1..S0.n : FLe(S0.lb[j], x[j]) /\ FLe(x[j], S0.ub[j])
  /\ FLe(KKT(x, lm), T8)

RetChecks(e) ==
  LET ran == st.nf > 0
      got == ran /\ e.x # <<>> /\ Has(e, "xi")
      ev == IF got THEN e.xi ELSE 0
      okx == ev > 0 /\ FSane(ev)
      c == CAt(ev)
      m == S0.nc - S0.mi
      okc == ev > 0 /\ Len(c) = S0.nc       \* constraint values, possibly infinite ones, are known at the point
      flag0 == e.flag = 0
      hund == FInt(100)
      \* a run whose initial evaluations failed has no iterate
      had == st.fail = 0 \/ Len(e.lm) > 0
  IN SetRet(e) \cup Chk("P03_flag_documented", On("P03"), e.flag \in R!FlagsDocumented)
     \cup Chk("P03_x_shape", On("P03") /\ got, e.xdim = 1 /\ Len(e.x) = S0.n)
     \cup Chk("P03_x_given", On("P03") /\ ran /\ st.fail = 0, e.x # <<>>)
     \cup Chk("P03_x_evaluated", On("P03") /\ got, e.xi > 0)
     \cup Chk("P03_f_is_value", On("P03") /\ okx /\ had, Near(e.f, Tr[ev].v, T12))
     \cup Chk("P03_c_is_value", On("P03") /\ okx /\ had /\ S0.nc > 0,
              \/ VNear(e.ce \o e.ci, c, T12) \/ VNear(e.ci \o e.ce, c, T12) \/ VNear(e.ce, c, T12))
     \cup Chk("P03_lm_length", On("P03") /\ got /\ st.fail = 0, Len(e.lm) = S0.n + S0.nc)
     \cup Chk("P03_lm_finite", On("P03") /\ got, AllFin(e.lm))
     \* the multipliers returned are the last ones computed, and zero for fixed variables
     \cup Chk("P08_returned", On("P08") /\ st.mult > 0 /\ Len(e.lm) = S0.n + S0.nc,
              LET w == Tr[st.mult].lm IN
              /\ Len(w) = NF + S0.nc
              /\ \A j \in 1..NF : Near(e.lm[S0.free[j]], w[j], T12)
              /\ \A j \in 1..S0.nc : Near(e.lm[S0.n + j], w[NF + j], T12)
              /\ \A k \in 1..S0.n : (\A j \in 1..NF : S0.free[j] # k) => FEq(e.lm[k], ZERO))
     \cup Chk("P03_feasn", On("P03") /\ okx /\ flag0 /\ S0.nc > 0 /\ S0.mi = 0, Near(e.feasn, VMaxAbs(c), T9))
     \cup Chk("P23_converges", On("P23") /\ ConvexProblem, e.flag = 0)
     \cup Chk("P23_minimiser", On("P23") /\ ConvexProblem /\ e.flag = 0,
              Len(e.x) = S0.n /\ \A j \in 1..S0.n : FLe(FAbs(FSub(e.x[j], S0.star[j])), T2))
     \cup Chk("P23_value", On("P23") /\ ConvexProblem /\ e.flag = 0 /\ e.xi > 0, FSane(e.xi) /\ Near(e.f, Tr[e.xi].v, T12))
     \cup Chk("P01_ret_nsimul", On("P01"), e.nsimul = st.nf \/ (st.nf = 0 /\ e.nsimul <= 0))
     \cup Chk("P01_c_complete", On("P01") /\ S0.nc > 0, st.pend = 0)
     \cup Chk("P02_flag5", On("P02") /\ e.flag = 5, e.niter >= S0.miter)
     \cup Chk("P02_flag6", On("P02") /\ e.flag = 6, e.nsimul >= S0.msimul /\ e.niter < S0.miter)
     \cup Chk("P02_niter", On("P02") /\ ran, e.niter <= S0.miter + 1)
     \cup Chk("P02_flag15", On("P02") /\ e.flag = 15 /\ st.it > 0,
              FLe(Tr[st.it].delta, FMul(D("1.000001"), FMax(T10, FMul(EPS10, VNorm(e.x))))))
     \cup Chk("P02_nsimul", On("P02") /\ ran, st.nf <= Max2(S0.msimul - 1, NF + 1) + PMax)
     \cup Chk("P02_flag_normal", On("P02") /\ S0.valid = 1 /\ st.fail = 0, e.flag \in {0, 5, 6, 15, 8, 30, 3})
     \cup Chk("P11_flag3", On("P11") /\ st.fail > 0, e.flag = 3)
     \cup Chk("P11_only_failures", On("P11") /\ st.fail = 0 /\ S0.valid = 1 /\ (\A p \in 1..i : Tr[p].k = "f" => FSane(p)), e.flag # 3)
     \cup (IF ~got THEN {} ELSE
           Chk("P05_ret_in_bounds", On("P05") /\ Len(e.x) = S0.n, VLe(e.x, S0.ub, T7) /\ VLe(S0.lb, e.x, T7))
           \cup Chk("P05_ret_fixed", (On("P05") \/ On("P15")) /\ Len(e.x) = S0.n,
                    \A j \in 1..S0.n : S0.lb[j] = S0.ub[j] => Near(e.x[j], S0.lb[j], T12))
           \cup Chk("P04_ret_monotone", On("P04") /\ S0.nc = 0 /\ st.fail = 0 /\ okx /\ Tr[2].k = "f" /\ FSane(2), FLe(e.f, Tr[2].v))
           \cup (IF st.fail = 0 THEN CurChecks(e.xi) ELSE {}))
     \cup Chk("P07_feasn_tol", On("P07") /\ flag0, FLe(e.feasn, FMul(hund, FMul(D("1.000001"), S0.tolf))))
     \cup Chk("P07_glagn_tol", On("P07") /\ flag0, FLe(e.glagn, FMul(hund, FMul(D("1.000001"), S0.tolg))))
     \cup Chk("P07_eq_satisfied", On("P07") /\ flag0 /\ okc,
              \A j \in 1..m : FLe(FAbs(c[j]), FMul(FInt(100), FMul(D("1.000001"), S0.tolf))))
     \cup Chk("P07_ineq_satisfied", (On("P07") \/ On("P16")) /\ flag0 /\ okc,
              \A j \in 1..S0.mi : FLe(FMul(FInt(-100), FMul(D("1.000001"), S0.tolf)), c[m + j]))
     \cup Chk("P07_true_stationarity", On("P07") /\ flag0 /\ okx /\ SmoothProblem /\ S0.exact = 1 /\ Len(e.lm) = S0.n + S0.nc,
              FLe(KKT(e.x, e.lm), FMul(FMul(FInt(100), FMax(S0.tolg, T5)), FAdd(FInt(10), FMul(T2, VMaxAbs(e.lm))))))
     \cup Chk("P07_last_is_conv", On("P07") /\ flag0 /\ st.it > 0, Tr[st.it].itype = "conv")
     \cup Chk("P07_opt_is_current", On("P07") /\ flag0 /\ st.opt > 0 /\ got,
              LET o == Tr[st.opt] IN
              /\ VNear(o.x, Sub(e.x), T12)
              /\ Near(e.glagn, VMaxAbs(o.glag), T9)
              /\ (S0.nc > 0 => Near(e.feasn, VMaxAbs(o.feas), T9)))
     \cup Chk("P14_args_unchanged", On("P14"), e.same = 1 /\ e.osame = 1)

ExcChecks(e) ==
  Chk("P02_returns", On("P02") /\ st.fail = 0, FALSE)
  \cup Chk("P11_no_exception", On("P11"), FALSE)
  \cup Chk("P12_no_exception", On("P12"), FALSE)
  \cup Chk("P23_no_exception", On("P23") /\ st.fail = 0, FALSE)

HistChecks(e) ==
  LET n == Len(e.rows)
      v == S0.verbose
      want == v >= 1 /\ v <= 3
      cols == IF S0.nc > 0 THEN 6 ELSE 5
      ret == NextOf(Tr, {"ret"}, 1)
      r == Tr[ret]
      iters == {p \in 1..Len(Tr) : Tr[p].k = "iter"}
      NearP(a, b) == FLe(FAbs(FSub(a, b)), FMul(T8, FAdd(D("1e-30"), FAbs(b))))     \* 9 printed digits
      NearQ(a, b) == (FIsNaN(a) /\ FIsNaN(b)) \/ FLe(FAbs(FSub(a, b)), FMul(D("6e-5"), FAdd(D("1e-30"), FAbs(b))))     \* 5 printed digits
  IN Chk("P13_well_formed", On("P13") /\ e.present = 1, e.bad = 0 /\ e.head = 1)
     \cup Chk("P13_closed", On("P13") /\ e.present = 1 /\ ret > 0 /\ st.nf > 0, e.close = 1)
     \cup Chk("P13_present", On("P13") /\ want /\ ret > 0 /\ st.nf > 0 /\ st.fail = 0, e.present = 1)
     \cup Chk("P13_columns", On("P13") /\ e.present = 1, \A j \in 1..n : Len(e.rows[j]) = cols)
     \cup Chk("P13_niter_order", On("P13") /\ e.present = 1 /\ n > 1,
              \A j \in 2..n : FLe(e.rows[j - 1][1], e.rows[j][1]) /\ FLe(e.rows[j][1], FAdd(e.rows[j - 1][1], 1)))
     \cup Chk("P13_nsimul_order", On("P13") /\ e.present = 1 /\ n > 1, \A j \in 2..n : FLe(e.rows[j - 1][2], e.rows[j][2]))
     \cup Chk("P13_last_row", On("P13") /\ e.present = 1 /\ n > 0 /\ ret > 0 /\ st.fail = 0,
              /\ FEq(e.rows[n][1], FInt(r.niter)) /\ FEq(e.rows[n][2], FInt(r.nsimul)) /\ NearP(e.rows[n][3], r.f))
     \cup Chk("P13_f_evaluated", On("P13") /\ e.present = 1 /\ Cardinality(DOMAIN Tr) < 400,
              \A j \in 1..n : \E p \in 1..Len(Tr) : Tr[p].k = "f" /\ NearP(e.rows[j][3], Tr[p].v))
     \cup Chk("P13_rows_are_iterations", On("P13") /\ want /\ e.present = 1 /\ iters # {}, n = Cardinality(iters))
     \cup Chk("P13_rows_match", On("P13") /\ want /\ e.present = 1 /\ iters # {} /\ n = Cardinality(iters),
              \A p \in iters :
                 LET j == Cardinality({q \in iters : q <= p}) it == Tr[p] w == e.rows[j] IN
                 /\ FEq(w[1], FInt(it.niter)) /\ FEq(w[2], FInt(it.nsimul)) /\ NearP(w[3], it.f) /\ NearP(w[4], it.merit)
                 /\ NearQ(w[5], it.glagn)
                 /\ (S0.nc > 0 => NearQ(w[6], it.feasn)))
     \cup Chk("P13_silent", On("P13") /\ v = 0 /\ ret > 0, n = 0)

\* what was printed: rows of the iteration table (verbosity 1 to 3), the final summary (from 1 on), the lists (from 3 on)
Reason(flag) == CASE flag = 0 -> "converged" [] flag = 1 -> "wrong argument" [] flag = 2 -> "unaccepted problem structure"
  [] flag = 3 -> "error during function evaluation" [] flag = 5 -> "maximum number of iterations"
  [] flag = 6 -> "maximum number of function evaluations" [] flag = 8 -> "the merit function cannot be decreased"
  [] flag = 15 -> "trust region radius too small" [] flag = 30 -> "unexpected (possible premature) termination" [] OTHER -> "?"
OutChecks(e) ==
  LET n == Len(e.rows)
      v == S0.verbose
      ret == NextOf(Tr, {"ret"}, 1)
      r == Tr[ret]
      iters == {p \in 1..Len(Tr) : Tr[p].k = "iter"}
      ran == ret > 0 /\ S0.valid = 1 /\ iters # {}
      table == v >= 1 /\ v <= 3
      Dig(a, b, tol) == (FIsNaN(a) /\ FIsNaN(b)) \/ a = b \/ FLe(FAbs(FSub(a, b)), FMul(D(tol), FAdd(D("1e-99"), FAbs(b))))
      One(s, b, tol) == Len(s) = 1 /\ Dig(s[1], b, tol)
      Bounded == \E j \in 1..S0.n : S0.lb[j] # S0.ub[j] /\ (FLt(D("-1e19"), S0.lb[j]) \/ FLt(S0.ub[j], D("1e19")))
      lastTrs(p) == CHOOSE q \in 1..p : Tr[q].k = "trs" /\ \A u \in (q + 1)..p : Tr[u].k # "trs"
  IN Chk("P21_no_table", On("P21") /\ ~table, n = 0)
     \cup Chk("P21_no_summary", On("P21") /\ v = 0, e.codes = <<>>)
     \cup Chk("P21_stream", On("P21"), e.stray = 0)
     \cup Chk("P21_head", On("P21") /\ ran /\ table, e.head = 1)
     \cup Chk("P21_rows_are_iterations", On("P21") /\ ran /\ table, n = Cardinality(iters))
     \cup Chk("P21_rows_match", On("P21") /\ ran /\ table /\ n = Cardinality(iters),
              \A p \in iters :
                 LET j == Cardinality({q \in iters : q <= p}) it == Tr[p] w == e.rows[j] IN
                 /\ Len(w) >= (IF S0.nc > 0 THEN 6 ELSE 5)
                 /\ FEq(w[1], FInt(it.niter)) /\ FEq(w[2], FInt(it.nsimul)) /\ Dig(w[3], it.f, "1e-8") /\ Dig(w[4], it.merit, "1e-8")
                 /\ Dig(w[5], it.glagn, "6e-5")
                 /\ (S0.nc > 0 => Dig(w[6], it.feasn, "6e-5")))
     \* the radius and the length of the last step (at convergence or failure the final row may show the radius that ended the run)
     \cup Chk("P21_row_step", On("P21") /\ ran /\ table /\ n = Cardinality(iters),
              \A p \in iters :
                 LET j == Cardinality({q \in iters : q <= p}) w == e.rows[j] c == IF S0.nc > 0 THEN 6 ELSE 5 IN
                 (Tr[p].niter > 1 /\ (j < n \/ r.flag \in {5, 6}) /\ (\E q \in 1..p : Tr[q].k = "trs") /\ Len(w) >= c + 2) =>
                    LET s == Tr[lastTrs(p)] IN Dig(w[c + 1], s.delta, "6e-3") /\ Dig(w[c + 2], FullNorm(s), "6e-3"))
     \cup Chk("P21_summary_once", On("P21") /\ ran /\ v >= 1, Len(e.codes) = 1)
     \cup (IF ~(On("P21") /\ ran /\ v >= 1 /\ Len(e.codes) = 1) THEN {} ELSE
           Chk("P21_exit_code", TRUE, e.codes[1] = r.flag)
           \cup Chk("P21_exit_reason", Reason(r.flag) # "?", e.reason = Reason(r.flag))
           \cup Chk("P21_final_f", TRUE, One(e.f, r.f, "6e-6"))
           \cup Chk("P21_final_glagn", TRUE, One(e.glagn, r.glagn, "6e-6"))
           \* the feasibility is shown for problems with constraints or bounds
           \cup Chk("P21_final_feasn", S0.nc > 0 \/ Bounded, One(e.feasn, r.feasn, "6e-6"))
           \cup Chk("P21_final_counters", TRUE, e.iters = <<r.niter>> /\ e.evals = <<r.nsimul>>))
     \cup (IF ~(On("P21") /\ ran /\ v >= 3 /\ Len(r.lm) = S0.n + S0.nc /\ Len(r.x) = S0.n) THEN {} ELSE
           Chk("P21_variables", e.vars # <<>> \/ S0.haslb = 1 \/ S0.hasub = 1,
               /\ Len(e.vars) = S0.n
               /\ \A j \in 1..S0.n : LET w == e.vars[j] IN
                    /\ Len(w) = 5 /\ FEq(w[1], FInt(j - 1)) /\ Dig(w[2], FMax(FNeg(BIG), S0.lb[j]), "6e-7") /\ Dig(w[3], r.x[j], "6e-7")
                    /\ Dig(w[4], FMin(BIG, S0.ub[j]), "6e-7") /\ Dig(w[5], r.lm[j], "6e-7"))
           \cup Chk("P21_constraints", S0.nc > 0 /\ r.xi > 0 /\ CAt(r.xi) # <<>> /\ CSane(r.xi),
               /\ Len(e.cons) = S0.nc
               /\ \A j \in 1..S0.nc : LET w == e.cons[j] IN
                    /\ Len(w) = 3 /\ FEq(w[1], FInt(j - 1)) /\ Dig(w[2], CAt(r.xi)[j], "6e-7") /\ Dig(w[3], r.lm[S0.n + j], "6e-7")))

----------------------------------------------------------------------------
Checks == LET e == E IN
  CASE e.k = "f" -> FChecks(e)
    [] e.k = "c" -> CChecks(e)
    [] e.k = "trs" -> TrsChecks(e)
    [] e.k = "small" -> SmallChecks(e)
    [] e.k = "mod" -> ModChecks(e)
    [] e.k = "hess" -> HessChecks(e)
    [] e.k = "mult" -> MultChecks(e)
    [] e.k = "opt" -> OptChecks(e)
    [] e.k = "iter" -> IterChecks(e)
    [] e.k = "repair" -> RepairChecks(e)
    [] e.k = "ret" -> RetChecks(e)
    [] e.k = "exc" -> ExcChecks(e)
    [] e.k = "hist" -> HistChecks(e)
    [] e.k = "out" -> OutChecks(e)
    [] OTHER -> {}

Advance == LET e == E IN
  CASE e.k = "f" -> [st EXCEPT !.nf = @ + 1, !.last = i,
                       !.pend = IF S0.nc > 0 THEN i ELSE 0,
                       !.fail = IF e.ok = 0 /\ @ = 0 THEN i ELSE @,
                       !.trf = IF st.tr > 0 /\ st.trf = 0 THEN i ELSE @,
                       !.impr = IF st.tr > 0 /\ st.trf = 0 THEN 0 ELSE @ + 1]
    [] e.k = "c" -> [st EXCEPT !.pend = 0, !.fail = IF e.ok = 0 /\ @ = 0 THEN i ELSE @]
    [] e.k = "trs" -> [st EXCEPT !.tr = i, !.trf = 0, !.impr = 0, !.small = 0, !.nit = e.niter, !.seen = TRUE,
                         !.sig = SigAfter(@, e)]
    [] e.k = "small" -> [st EXCEPT !.small = i,
                         !.sig = IF \E s \in @ : Near(e.sigma, s, T6) THEN {e.sigma} ELSE @]
    [] e.k = "mod" -> [st EXCEPT !.mod = i, !.full = IF ModFull(e) THEN i ELSE @]
    [] e.k = "mult" -> [st EXCEPT !.mult = i, !.seen = TRUE]
    [] e.k = "opt" -> [st EXCEPT !.opt = i, !.seen = TRUE]
    [] e.k = "iter" -> [st EXCEPT !.it = i, !.seen = TRUE]
    [] e.k = "poi" -> [st EXCEPT !.poi = i]
    [] e.k = "repair" -> [st EXCEPT !.rep = i, !.seen = TRUE]
    [] OTHER -> st

Init == /\ t \in 1..Len(T)
        /\ i = 1
        /\ st = St0
        /\ bad = {}
        /\ cov = {}

Next == /\ i <= Len(Tr)
        /\ LET res == Checks
               nbad == {<<r[1], i>> : r \in {q \in res : ~q[2]}}
           IN /\ bad' = bad \cup nbad
              /\ cov' = cov \cup {r[1] : r \in res}
              /\ st' = Advance
        /\ i' = i + 1
        /\ UNCHANGED t
        /\ (i = Len(Tr) => PrintT("@V " \o ToJson(<<t, bad', cov'>>)))

Spec == Init /\ [][Next]_vars
\* the walk consumes every trace entirely
TypeOK == i \in 1..(Len(Tr) + 1)
=============================================================================
