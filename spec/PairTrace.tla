----------------------------- MODULE PairTrace -----------------------------
(* Two runs side by side (a product construction): step i compares the i-th *)
(* observable event of run A with that of run B under the relation of the   *)
(* pair.  TRACE_FILE holds a sequence of pairs                              *)
(*   [prop, rel, free, fix, A, B]                                           *)
(* rel = "same":    B makes the same evaluations and returns the same;      *)
(* rel = "reduced": A has fixed variables, B is the problem in the others;  *)
(*                  free are the positions of B's variables in A's, fix the *)
(*                  values of A's fixed variables (0.0 elsewhere);          *)
(* hist = 1: the history files agree as well.                               *)
EXTENDS IEEE, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

T == JsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES t, i, bad, cov
vars == <<t, i, bad, cov>>
P == T[t]
p == P.prop
Chk(name, applies, ok) == IF applies THEN {<<name, ok>>} ELSE {}
Max(a, b) == IF a > b THEN a ELSE b

Cut(v) == IF P.rel = "reduced" /\ Len(v) >= Len(P.fix)
          THEN [j \in 1..(Len(P.free) + Len(v) - Len(P.fix)) |->
                  IF j <= Len(P.free) THEN v[P.free[j]] ELSE v[Len(P.fix) + j - Len(P.free)]]
          ELSE v
IsFree(j) == \E k \in 1..Len(P.free) : P.free[k] = j
FixOK(x) == P.rel = "reduced" => \A j \in 1..Len(P.fix) : IsFree(j) \/ x[j] = P.fix[j]
TOL == FDec(P.tol)
SameN(a, b) == a = b \/ (TOL # FInt(0) /\ FLe(FAbs(FSub(a, b)), FMul(TOL, FAdd(FInt(1), FAbs(b)))))
SameV(v, w) == Len(v) = Len(w) /\ \A j \in 1..Len(v) : SameN(v[j], w[j])

Shape(e) == IF e.k = "ret" THEN "ret" ELSE IF e.k = "exc" THEN "exc" ELSE e.k
EvalChecks(a, b) ==
  Chk(p \o "_same_points", TRUE, SameV(Cut(a.x), b.x) /\ FixOK(a.x))
  \cup Chk(p \o "_same_values", TRUE, a.ok = b.ok /\ (IF a.k = "f" THEN SameN(a.v, b.v) ELSE SameV(a.v, b.v)))
RetChecks(a, b) ==
  Chk(p \o "_same_x", TRUE, SameV(Cut(a.x), b.x) /\ (Len(a.x) = Len(P.fix) => FixOK(a.x)))
  \cup Chk(p \o "_same_flag", TRUE, a.flag = b.flag)
  \cup Chk(p \o "_same_f", TRUE, SameN(a.f, b.f))
  \cup Chk(p \o "_same_counts", TRUE, a.niter = b.niter /\ a.nsimul = b.nsimul)
  \cup Chk(p \o "_same_constraints", TRUE, SameV(a.ce, b.ce))
  \cup Chk(p \o "_same_measures", TRUE, SameN(a.glagn, b.glagn) /\ SameN(a.feasn, b.feasn))
  \cup Chk(p \o "_same_multipliers", TRUE, SameV(Cut(a.lm), b.lm))
  \cup Chk(p \o "_caller_unchanged", a.flag # 1, a.same = 1 /\ a.osame = 1 /\ b.same = 1 /\ b.osame = 1)
HistChecks(a, b) == Chk(p \o "_same_history", P.hist = 1,
  a.head = b.head /\ a.close = b.close /\ a.bad = b.bad /\ Len(a.rows) = Len(b.rows)
  /\ \A j \in 1..Len(a.rows) : SameV(a.rows[j], b.rows[j]))

Checks ==
  IF i > Len(P.A) \/ i > Len(P.B) THEN {<<p \o "_same_length", FALSE>>}
  ELSE LET a == P.A[i] b == P.B[i] IN
    Chk(p \o "_same_events", TRUE, Shape(a) = Shape(b))
    \cup (IF Shape(a) # Shape(b) THEN {}
          ELSE CASE a.k \in {"f", "c"} -> EvalChecks(a, b)
                 [] a.k = "ret" -> RetChecks(a, b)
                 [] a.k = "exc" -> Chk(p \o "_same_exception", TRUE, a.type = b.type)
                 [] a.k = "hist" -> HistChecks(a, b)
                 [] a.k = "out" -> Chk(p \o "_same_output", TRUE, a.h = b.h)
                 [] OTHER -> {})

Last == Max(Len(P.A), Len(P.B))
Init == t \in 1..Len(T) /\ i = 1 /\ bad = {} /\ cov = {}
\* the walk stops at the first difference: what follows is a consequence
Next == /\ i <= Last /\ bad = {}
        /\ LET res == Checks IN
           /\ bad' = {<<r[1], i>> : r \in {q \in res : ~q[2]}}
           /\ cov' = cov \cup {r[1] : r \in res}
        /\ i' = i + 1
        /\ UNCHANGED t
        /\ ((i = Last \/ bad' # {}) => PrintT("@V " \o ToJson(<<t, bad', cov'>>)))
=============================================================================
