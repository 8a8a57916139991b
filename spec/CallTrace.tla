----------------------------- MODULE CallTrace -----------------------------
(* Validation of recorded component calls (TRACE_FILE: a sequence of call   *)
(* records) against the contracts of Calls.tla.                             *)
EXTENDS Calls, TLC, Json, IOUtils

T     == JsonDeserialize(IOEnv.TRACE_FILE)
Which == IOEnv.CLAUSES

VARIABLES t, done
On(p) == Which = "all" \/ Which = p
Contract(c) ==
  CASE c.k = "trms" /\ On("P17") -> TrmsChecks(c, "P17")
    [] c.k = "tcg" /\ On("P17") -> TcgChecks(c, "P17")
    [] c.k = "trmsbc" /\ On("P18") -> TrmsbcChecks(c, "P18")
    [] c.k = "blls" /\ On("P18") -> BllsChecks(c, "P18")
    [] c.k = "bfgs" /\ On("P20") -> BfgsChecks(c, "P20")
    [] c.k = "convex" /\ On("P20") -> ConvexChecks(c, "P20")
    [] c.k = "cond" /\ On("P20") -> CondChecks(c, "P20")
    [] c.k = "poly" /\ On("P19") -> PolyChecks(c, "P19")
    [] c.k = "set" /\ On("P19") -> SetChecks(c, "P19")
    [] c.k = "geo" /\ On("P22") -> GeoChecks(c, "P22")
    [] c.k = "raised" -> {<<c.prop \o "_no_exception", FALSE>>}
    [] OTHER -> {}

Init == t \in 1..Len(T) /\ done = 0
Next == /\ done = 0
        /\ done' = 1
        /\ UNCHANGED t
        /\ LET r == Contract(T[t]) IN
           PrintT("@V " \o ToJson(<<t, {<<q[1], 1>> : q \in {u \in r : ~u[2]}}, {q[1] : q \in r}>>))
=============================================================================
