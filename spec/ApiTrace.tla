------------------------------ MODULE ApiTrace ------------------------------
(* Recorded calls (TRACE_FILE: records [call, exc, flag, nf, nc, eff])      *)
(* against the decision table.                                              *)
EXTENDS ApiRules, IEEE, Integers, TLC, Json, IOUtils
T == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, done
Chk(name, applies, ok) == IF applies THEN {<<name, ok>>} ELSE {}
EffOK(c, e, n) == LET m == Meaning(c, n) IN
  IF n \in Numeric THEN (IF m = "infinite" THEN ~FFin(e.eff[n]) ELSE e.eff[n] = FDec(m)) ELSE e.eff[n] = m
Checks(e) ==
  LET c == e.call v == Verdict(c) IN
  Chk("P12_no_exception", TRUE, e.exc = "")
  \cup Chk("P12_flag_argument", v = 1 /\ e.exc = "", e.flag = 1)
  \cup Chk("P12_flag_problem", v = 2 /\ e.exc = "", e.flag = 2)
  \cup Chk("P12_no_evaluation", v # 0, e.nf = 0 /\ e.nc = 0)
  \cup Chk("P12_accepted", v = 0 /\ e.exc = "", e.flag \notin {1, 2} /\ e.nf > 0)
  \cup Chk("P12_constraints_called", v = 0 /\ e.exc = "" /\ c.cons \in {"eq", "ineq", "mix"}, e.nc = e.nf)
  \cup Chk("P12_effective_options", v = 0 /\ e.haseff = 1, \A n \in Options : EffOK(c, e, n))
Init == t \in 1..Len(T) /\ done = 0
Next == /\ done = 0 /\ done' = 1 /\ UNCHANGED t
        /\ LET r == Checks(T[t]) IN
           PrintT("@V " \o ToJson(<<t, {<<q[1], 1>> : q \in {u \in r : ~u[2]}}, {q[1] : q \in r}>>))
=============================================================================
