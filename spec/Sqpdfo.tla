------------------------------- MODULE Sqpdfo -------------------------------
(* The control of a run of optimize, over small integers, with the user's   *)
(* functions, the models and the geometry of the interpolation set as the   *)
(* environment.  The decisions (merit, ratio test, radius, penalty, budgets)*)
(* are those of SqpRules, the module SqpTrace applies to recorded runs in   *)
(* IEEE arithmetic.                                                         *)
(*                                                                          *)
(* A run: the initial set is evaluated; then every pass of the loop tests   *)
(* the budgets, may find convergence (or improve the interpolation set,     *)
(* evaluating the points it replaced), computes a step, evaluates it and    *)
(* decides on it.  Any evaluation may fail.                                 *)
(*                                                                          *)
(* Values of f come from the symbols of the environment: B much better than *)
(* all before, b better, = as good as the best, w worse, W much worse.  A   *)
(* finished behaviour is printed (PRINT = 1) as the word of its symbols with*)
(* its budgets and its failure; the harness executes it on the real code.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS N,        \* points of the initial set
          PF,       \* points of a full set
          MITER, MSIMUL,      \* budgets are chosen up to these
          FM, HM,   \* f in 0..FM, |c| in 0..HM
          Q,        \* model cost in -Q..Q
          RP,       \* predicted decrease of |c| in -1..RP
          DM,       \* largest radius
          ER,       \* radius below which rejected steps do not shrink it
          PRINT

MaxI(a, b) == IF a < b THEN b ELSE a
MinI(a, b) == IF a < b THEN a ELSE b
Plus(a, b) == a + b
Minus(a, b) == a - b
Times(a, b) == a * b
LeI(a, b) == a <= b
LtI(a, b) == a < b
HalfI(a) == (a + 1) \div 2
R == INSTANCE SqpRules WITH Add <- Plus, Sub <- Minus, Mul <- Times, Le <- LeI, Lt <- LtI, Max <- MaxI, Min <- MinI,
       Half <- HalfI, DMax <- DM, DFive <- DM \div 5 + 1, EpsRad <- ER, Eta1N <- 1, Eta1D <- 10000, Eta2N <- 9, Eta2D <- 10

VARIABLES
  pc,        \* init, head, improve, fill, step, trial, decide, done
  miter, msimul, cons,           \* the call
  nf, niter, sigma, delta, nset, \* counters, penalty, radius, size of the interpolation set
  cur,       \* f and |c| at the iterate
  seen,      \* all values <<f, |c|>> the user returned
  noimp,     \* the model predicted no decrease: improve the set next
  todo,      \* points of an improvement still to evaluate
  rad,       \* radius of the improvement
  cand,      \* best point of the set during an improvement
  st,        \* the step: q, rp, act, norms
  tv,        \* its values
  flag,
  moved,     \* what made the iterate what it is: "start", "accept", "improve" (for the action properties)
  word, fail \* the environment's choices
vars == <<pc, miter, msimul, cons, nf, niter, sigma, delta, nset, cur, seen, noimp, todo, rad, cand, st, tv, flag, moved, word, fail>>
call == <<miter, msimul, cons>>

Low == CHOOSE v \in {p[1] : p \in seen} : \A p \in seen : v <= p[1]
Value(a) == CASE a = "B" -> Low - 2 [] a = "b" -> Low - 1 [] a = "=" -> Low [] a = "w" -> Low + 1 [] a = "W" -> Low + 3
Symbols == {a \in {"B", "b", "=", "w", "W"} : Value(a) \in 0..FM}
Hs == IF cons THEN 0..HM ELSE {0}
Mer(p) == R!Merit(p[1], sigma, p[2])
\* the word is kept only when it is printed
Note(a) == IF PRINT = 1 THEN Append(word, a) ELSE word
Nothing == <<0, 0>>
NoStep == [q |-> 0, rp |-> 0, act |-> FALSE, norms |-> 0]

Init ==
  /\ pc = "init" /\ miter \in 1..MITER /\ msimul \in 1..MSIMUL /\ cons \in BOOLEAN
  /\ nf = 0 /\ niter = 0 /\ sigma = 1 /\ delta = ER /\ nset = N
  /\ cur = <<FM, 0>> /\ seen = {} /\ noimp = FALSE /\ todo = 0 /\ rad = 0 /\ cand = Nothing
  /\ st = NoStep /\ tv = Nothing /\ flag = 0 /\ moved = "start" /\ word = <<>> /\ fail = FALSE

Stop(f) == pc' = "done" /\ flag' = f
Fails == /\ nf' = nf + 1 /\ fail' = TRUE /\ word' = Note("x") /\ Stop(3)
         /\ UNCHANGED <<miter, msimul, cons, niter, sigma, delta, nset, cur, seen, noimp, todo, rad, cand, st, tv, moved>>

\* the initial set: x0 first; the others are not better than it by more than the environment wants
EvalInit ==
  /\ pc = "init"
  /\ \/ Fails
     \/ \E f \in 1..(FM - 1) : \E h \in Hs :
          /\ (nf > 0 => f >= cur[1] - 1)
          /\ nf' = nf + 1
          /\ cur' = IF nf = 0 THEN <<f, h>> ELSE cur
          /\ seen' = seen \cup {<<f, h>>}
          /\ pc' = IF nf' = N THEN "head" ELSE "init"
          /\ word' = Note("t")
          /\ UNCHANGED <<miter, msimul, cons, niter, sigma, delta, nset, noimp, todo, rad, cand, st, tv, flag, moved, fail>>

LoopHead ==
  /\ pc = "head"
  /\ LET b == R!BudgetFlag(niter, miter, nf, msimul) IN
     IF b # 0 THEN /\ Stop(b)
                   /\ UNCHANGED <<miter, msimul, cons, nf, niter, sigma, delta, nset, cur, seen, noimp, todo, rad, cand, st, tv, moved, word, fail>>
     ELSE /\ UNCHANGED <<miter, msimul, cons, nf, sigma, delta, nset, cur, seen, noimp, todo, rad, cand, st, tv, moved, word, fail>>
          /\ \/ \* the tolerances are met and the model is accurate
                niter' = niter + 1 /\ Stop(0)
             \/ \* the tolerances are met, or the model predicted nothing: improve the set
                niter' = niter + 1 /\ pc' = "improve" /\ UNCHANGED flag
             \/ ~noimp /\ pc' = "step" /\ UNCHANGED <<flag, niter>>

Improve ==
  /\ pc = "improve"
  /\ \E r \in 0..delta : \E k \in 0..nset :
        /\ rad' = r
        /\ IF r = 0 THEN Stop(15) /\ UNCHANGED <<todo, cand>>
           ELSE /\ todo' = k /\ cand' = cur
                /\ pc' = "fill" /\ UNCHANGED flag
  /\ UNCHANGED <<miter, msimul, cons, nf, niter, sigma, delta, nset, cur, seen, noimp, st, tv, moved, word, fail>>

Fill ==
  /\ pc = "fill" /\ todo > 0
  /\ \/ Fails
     \/ \E a \in Symbols : \E h \in Hs :
          LET p == <<Value(a), h>> IN
          /\ nf' = nf + 1 /\ todo' = todo - 1
          /\ seen' = seen \cup {p}
          /\ cand' = IF Mer(p) < Mer(cand) THEN p ELSE cand
          /\ word' = Note(a)
          /\ UNCHANGED <<pc, miter, msimul, cons, niter, sigma, delta, nset, cur, noimp, rad, st, tv, flag, moved, fail>>

\* the iterate becomes the best point of the set (an old point of the set may be better than the iterate, too)
Improved ==
  /\ pc = "fill" /\ todo = 0
  /\ \E p \in {cand} \cup {o \in seen : Mer(o) < Mer(cand)} :
        /\ cur' = p
        /\ moved' = IF p = cur THEN moved ELSE "improve"
  /\ \/ niter' = niter + 1 /\ Stop(0) /\ UNCHANGED delta
     \/ pc' = "step" /\ delta' = rad /\ UNCHANGED <<flag, niter>>
  /\ noimp' = FALSE /\ rad' = 0 /\ cand' = Nothing
  /\ UNCHANGED <<miter, msimul, cons, nf, sigma, nset, seen, todo, st, tv, word, fail>>

Step ==
  /\ pc = "step"
  /\ \E q \in (-Q)..Q : \E rp \in IF cons THEN (-1)..RP ELSE {0} : \E act \in BOOLEAN : \E nrm \in 1..delta :
        /\ (~cons => q <= 0)
        /\ (act <=> nrm = delta)
        /\ st' = [q |-> q, rp |-> rp, act |-> act, norms |-> nrm]
        /\ sigma' = IF rp = 0 THEN sigma
                    ELSE LET b == IF rp > 0 THEN (10 * q + 7 * rp - 1) \div (7 * rp) ELSE (10 * q) \div (7 * rp)
                         IN R!NewSigma(sigma, b, sigma + HalfI(sigma))
  /\ niter' = niter + 1
  /\ pc' = "trial"
  /\ UNCHANGED <<miter, msimul, cons, nf, delta, nset, cur, seen, noimp, todo, rad, cand, tv, flag, moved, word, fail>>

Trial ==
  /\ pc = "trial"
  /\ \/ Fails
     \/ \E a \in Symbols : \E h \in Hs :
          /\ tv' = <<Value(a), h>>
          /\ seen' = seen \cup {tv'}
          /\ nf' = nf + 1
          /\ word' = Note(a)
          /\ pc' = "decide"
          /\ UNCHANGED <<miter, msimul, cons, niter, sigma, delta, nset, cur, noimp, todo, rad, cand, st, flag, moved, fail>>

Pred == IF st.rp < 0 THEN -1 ELSE sigma * st.rp - st.q
Accepted == R!Accepts(Mer(cur), Mer(tv), Pred)
Very == R!VerySuccessful(Mer(cur), Mer(tv), Pred)

\* radius interpolated from the rejected step; at zero the run ends
Shrunk == 0..HalfI(MinI(delta, st.norms) - 1)

Decide ==
  /\ pc = "decide"
  /\ st' = NoStep /\ tv' = Nothing
  /\ UNCHANGED <<miter, msimul, cons, nf, niter, sigma, seen, todo, rad, cand, word, fail>>
  /\ IF Pred <= 0
     THEN \* nothing predicted: the point may enter the set; improve it next
          /\ noimp' = TRUE /\ pc' = "head"
          /\ UNCHANGED <<delta, nset, cur, flag, moved>>
     ELSE /\ noimp' = FALSE
          /\ \/ \* accepted; the point enters the set
                /\ Accepted
                /\ cur' = tv /\ moved' = "accept"
                /\ nset' = MinI(nset + 1, PF)
                /\ \/ delta' = IF Very THEN R!RadiusVery(delta, st.norms, st.act) ELSE R!RadiusGood(delta, st.norms, st.act)
                   \/ nset = PF /\ delta' = MinI(MaxI(2 * st.norms, delta), DM)      \* in place of a far or a close point
                /\ pc' = "head" /\ UNCHANGED flag
             \/ \* rejected, or a point that cannot enter a full set
                /\ ~Accepted \/ nset = PF
                /\ UNCHANGED <<cur, moved>>
                /\ \/ /\ ~Accepted
                      /\ nset' = MinI(nset + 1, PF) /\ delta' = R!RadiusReject(delta)
                      /\ pc' = "head" /\ UNCHANGED flag
                   \/ /\ nset = PF
                      /\ UNCHANGED nset
                      /\ \E d \in Shrunk : IF d = 0 THEN Stop(15) /\ UNCHANGED delta
                                           ELSE delta' = d /\ pc' = "head" /\ UNCHANGED flag

Done == /\ pc = "done"
        /\ UNCHANGED vars
Next == EvalInit \/ LoopHead \/ Improve \/ Fill \/ Improved \/ Step \/ Trial \/ Decide
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
TypeOK == /\ pc \in {"init", "head", "improve", "fill", "step", "trial", "decide", "done"}
          /\ nf \in Nat /\ niter \in Nat /\ sigma \in Nat /\ nset \in N..PF /\ flag \in R!FlagsDocumented
\* P01: what is known about the iterate was returned by the user's functions
IterateEvaluated == nf > 0 /\ pc # "done" => cur \in seen
\* P02
WithinBudgets == /\ niter <= miter + 1
                 /\ nf <= MaxI(N, MaxI(msimul - 1, N) + PF + 1)
FlagTruth == pc = "done" =>
               /\ (flag = 5 => niter >= miter)
               /\ (flag = 6 => nf >= msimul /\ niter < miter)
               /\ (flag = 3 <=> fail)
               /\ flag \in {0, 3, 5, 6, 15}
Terminates == <>(pc = "done")
\* no step is computed beyond the budgets: the head looked at them in the same pass
StepsInBudget == pc \in {"step", "improve"} => niter <= miter
\* P03: the iterate at the end is an evaluated one
ResultEvaluated == (pc = "done" /\ nf >= N /\ (fail => nf > N)) => cur \in seen
\* P04
MeritNeverGrows == [][(cur' # cur /\ pc # "init") => Mer(cur') < Mer(cur)]_vars
FNeverGrows == [][(~cons /\ pc # "init") => cur'[1] <= cur[1]]_vars
SigmaGrows == [][sigma' >= sigma]_vars
SigmaEnough == pc \in {"trial", "decide"} /\ st.rp > 0 => 7 * sigma * st.rp >= 10 * st.q   \* then the prediction is positive ...
PredictedDecrease == pc = "decide" /\ st.rp > 0 /\ st.q > 0 => Pred > 0                        \* ... whatever the model costs
AcceptedBetter == pc = "decide" /\ Accepted => Mer(tv) < Mer(cur)         \* flag 9 cannot occur
MovesOnlyTo == [][(cur' # cur /\ pc # "init") => cur' \in seen']_vars
\* P06
RadiusRange == delta \in 1..DM
RadiusLaw == [][delta' # delta =>
                  \/ pc = "fill" /\ delta' = rad
                  \/ pc = "decide" /\ moved' = "accept" /\ delta' >= delta
                  \/ pc = "decide" /\ cur' = cur /\ delta' < delta]_vars
\* P11
FailureEnds == [][fail => UNCHANGED <<nf, cur, flag>>]_vars
FailureKeepsIterate == [][(fail' # fail) => UNCHANGED <<cur, sigma, delta>>]_vars

\* behaviours for the real code
Printed == (PRINT = 1 /\ pc = "done") =>
           PrintT("@S " \o ToJson([word |-> word, miter |-> miter, msimul |-> msimul, cons |-> cons, flag |-> flag]))

-----------------------------------------------------------------------------
(* The user's view: a run evaluates points, holds one of them, moves to one  *)
(* of less merit, and stops.                                                *)
Abs == INSTANCE Optimizer WITH held <- cur, known <- seen, weight <- sigma, running <- (pc # "done"), initial <- (pc = "init")
Refines == Abs!Spec
=============================================================================
