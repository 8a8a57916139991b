------------------------------ MODULE Session ------------------------------
(* Histories of calls to optimize in one process.                           *)
(*                                                                          *)
(* The module-level state of the implementation (sqpdfo_global_variables)   *)
(* survives a call.  The model abstracts it: every call overwrites the cells *)
(* it depends on before it reads them, so what a call returns is a function  *)
(* of the call alone (invariant Isolated).  Every history of length L over   *)
(* Kinds is printed; harness/pairs.py executes it in one process and         *)
(* PairTrace.tla compares each of its calls with the same call made first in *)
(* a fresh process.                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Randomization, Json, IOUtils

L     == atoi(IOEnv.SLEN)     \* all histories of this length ...
Extra == atoi(IOEnv.SEXTRA)   \* ... and this many random ones of length L + 2

\* a kind of call: does it announce constraints, slacks, does it end before the first evaluation, in failure
Calls == [
  free      |-> [slacks |-> 0, cons |-> FALSE, stops |-> "no"],
  bounds    |-> [slacks |-> 0, cons |-> FALSE, stops |-> "no"],
  eq        |-> [slacks |-> 0, cons |-> TRUE,  stops |-> "no"],
  ineq1     |-> [slacks |-> 1, cons |-> TRUE,  stops |-> "no"],
  ineq2     |-> [slacks |-> 2, cons |-> TRUE,  stops |-> "no"],
  mix       |-> [slacks |-> 1, cons |-> TRUE,  stops |-> "no"],
  bfgs      |-> [slacks |-> 0, cons |-> TRUE,  stops |-> "no"],
  frob      |-> [slacks |-> 0, cons |-> FALSE, stops |-> "no"],
  big       |-> [slacks |-> 0, cons |-> FALSE, stops |-> "no"],
  fixed     |-> [slacks |-> 0, cons |-> FALSE, stops |-> "no"],
  noisy     |-> [slacks |-> 1, cons |-> TRUE,  stops |-> "no"],
  long      |-> [slacks |-> 0, cons |-> TRUE,  stops |-> "no"],
  quiet     |-> [slacks |-> 1, cons |-> TRUE,  stops |-> "no"],
  restart   |-> [slacks |-> 0, cons |-> TRUE,  stops |-> "no"],
  raises    |-> [slacks |-> 1, cons |-> TRUE,  stops |-> "midway"],
  nan       |-> [slacks |-> 0, cons |-> TRUE,  stops |-> "midway"],
  nofunc    |-> [slacks |-> 0, cons |-> TRUE,  stops |-> "rejected"],
  nocons    |-> [slacks |-> 2, cons |-> FALSE, stops |-> "rejected"],
  badopt    |-> [slacks |-> 1, cons |-> TRUE,  stops |-> "rejected"],
  crossed   |-> [slacks |-> 0, cons |-> FALSE, stops |-> "rejected"]]
Kinds == DOMAIN Calls

VARIABLES hist,     \* the calls made so far
          cells,    \* module-level state: who wrote it, and what
          read      \* what the last call read of it
vars == <<hist, cells, read>>

Fresh == [slacks |-> 0, cons |-> FALSE]
Init == hist = <<>> /\ cells = Fresh /\ read = Fresh

\* a call sets the number of slacks and the constraint function it was given before it uses them
Call(k) ==
  /\ Len(hist) < L
  /\ hist' = Append(hist, k)
  /\ cells' = [slacks |-> Calls[k].slacks, cons |-> Calls[k].cons]
  /\ read' = cells'
  /\ (Len(hist') = L => PrintT("@S " \o ToJson(hist')))
Next == \E k \in Kinds : Call(k)
Spec == Init /\ [][Next]_vars

Isolated == Len(hist) > 0 => read = [slacks |-> Calls[hist[Len(hist)]].slacks, cons |-> Calls[hist[Len(hist)]].cons]

ASSUME Extra = 0 \/ \A h \in RandomSubset(Extra, [1..(L + 2) -> Kinds]) : PrintT("@S " \o ToJson(h))
=============================================================================
