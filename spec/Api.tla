-------------------------------- MODULE Api --------------------------------
(* The entry of a run as a state machine: the arguments are looked at in     *)
(* stages, every stage lets the call pass or ends it; only a call that       *)
(* passed all stages evaluates.  The invariants relate the stages to the     *)
(* decision table of ApiRules; every finished call is printed and executed   *)
(* on the real code (harness/api.py), and judged by ApiTrace.                *)
(* Calls: all that differ from the plain call in at most two classes, and    *)
(* random combinations.                                                      *)
EXTENDS ApiRules, Integers, TLC, Randomization, Json, IOUtils
N == atoi(IOEnv.COUNT)

Deviations == {<<d, v>> : d \in {"func", "x0", "cons", "bounds", "optobj"}, v \in UNION {Dims[d] : d \in DOMAIN Dims}}
ArgDev == {p \in Deviations : p[2] \in Dims[p[1]] /\ Plain[p[1]] # p[2]}
OptDev == UNION {{<<n, v>> : v \in DOMAIN Means[n] \ {Plain.o[n]}} : n \in Options}
Apply(c, p) == IF p[1] \in Options THEN [c EXCEPT !.o[p[1]] = p[2]] ELSE [c EXCEPT ![p[1]] = p[2]]
Singles == {Apply(Plain, p) : p \in ArgDev \cup OptDev}
Pairs == {Apply(Apply(Plain, p), q) : p \in ArgDev \cup OptDev, q \in ArgDev \cup OptDev}
RandomCall(k) == LET args == [d \in DOMAIN Dims |-> RandomElement(Dims[d])]
                     o == [n \in Options |-> RandomElement(IF RandomElement(1..6) = 1 THEN DOMAIN Means[n] ELSE {v \in DOMAIN Means[n] : Means[n][v] # "!"})]
                 IN [func |-> IF RandomElement(1..4) = 1 THEN args.func ELSE "ok", x0 |-> IF RandomElement(1..3) = 1 THEN args.x0 ELSE "ok",
                     cons |-> args.cons, bounds |-> args.bounds, optobj |-> IF RandomElement(1..3) = 1 THEN args.optobj ELSE "given", o |-> o]
CallSet == {Plain} \cup Singles \cup Pairs \cup {RandomCall(k) : k \in 1..N}

VARIABLES call,    \* the classes of the arguments
          stage,   \* what is looked at next
          flag,    \* the verdict so far
          evals,   \* whether the user's functions were called
          eff      \* effective options
vars == <<call, stage, flag, evals, eff>>

Order == <<"func", "cons", "x0", "options", "shape", "bounds", "free", "evaluate", "done">>
Follow(s) == LET k == CHOOSE j \in 1..Len(Order) : Order[j] = s IN Order[k + 1]
Init == call \in CallSet /\ stage = "func" /\ flag = 0 /\ evals = FALSE /\ eff = <<>>
Stop(f) == stage' = "done" /\ flag' = f /\ UNCHANGED <<call, evals, eff>>
Pass == stage' = Follow(stage) /\ UNCHANGED <<call, flag, evals, eff>>
Look(s, bad, f) == stage = s /\ IF bad THEN Stop(f) ELSE Pass
SetOptions == /\ stage = "options"
              /\ IF \E n \in Options : Meaning(call, n) = "!" THEN Stop(1)
                 ELSE stage' = "shape" /\ eff' = [n \in Options |-> Meaning(call, n)] /\ UNCHANGED <<call, flag, evals>>
Evaluate == stage = "evaluate" /\ stage' = "done" /\ evals' = TRUE /\ UNCHANGED <<call, flag, eff>>
Next == \/ Look("func", call.func = "missing", 1)
        \/ Look("cons", call.cons \in {"eq_nofunc", "ineq_nofunc"}, 1)
        \/ Look("x0", call.x0 = "missing", 1)
        \/ SetOptions
        \/ Look("shape", call.x0 \in {"empty", "matrix"}, 1)
        \/ Look("bounds", call.bounds \in {"crossed", "lastcrossed", "fixedcrossed"}, 2)
        \/ Look("free", call.bounds = "allfixed", 2)
        \/ Evaluate
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == stage = "done"
TableAgrees == Done => flag = Verdict(call)
NothingEvaluatedFirst == flag # 0 => ~evals
RunsEvaluate == Done /\ flag = 0 => evals
OptionsTotal == evals => \A n \in Options : eff[n] # "!"
Terminates == <>Done
Printed == (Done => PrintT("@S " \o ToJson(call)))
=============================================================================
