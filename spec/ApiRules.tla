------------------------------ MODULE ApiRules ------------------------------
(* What a call of optimize does with its arguments and options, as a        *)
(* decision table.  A call is a record of classes: one per argument and one *)
(* per option ("absent", a good value, values at and beyond the limits,     *)
(* spellings).  harness/api.py holds the concrete values of the classes.    *)
EXTENDS Sequences, FiniteSets

Dims == [func   |-> {"ok", "missing"},
         x0     |-> {"ok", "missing", "empty", "matrix", "list"},
         cons   |-> {"none", "eq", "ineq", "mix", "eq_nofunc", "ineq_nofunc", "unused"},
         bounds |-> {"none", "ok", "lbonly", "ubonly", "infinite", "somefixed", "crossed", "lastcrossed", "fixedcrossed", "allfixed"},
         optobj |-> {"given", "none", "empty"}]

\* what an option value means: its effective value, or "!" when it is rejected
Means == [
  algo_descent |-> [absent |-> "powell", good |-> "wolfe", odd |-> "powell", oddwolfe |-> "wolfe", unknown |-> "!", empty |-> "!"],
  hess_approx  |-> [absent |-> "model", good |-> "bfgs", odd |-> "bfgs", oddmodel |-> "model", unknown |-> "!", empty |-> "!"],
  whichmodel   |-> [absent |-> "subbasis", good |-> "subbasis", odd |-> "frobnorm", oddsub |-> "subbasis", l2 |-> "l2norm", regr |-> "regression", unknown |-> "!", empty |-> "!"],
  final_degree |-> [absent |-> "diagonal", good |-> "linear", odd |-> "quadratic", diag |-> "diagonal", oddlin |-> "linear", unknown |-> "!", empty |-> "!"],
  dxmin        |-> [absent |-> "1e-8", good |-> "0.001", zero |-> "!", negative |-> "!"],
  inf          |-> [absent |-> "infinite", good |-> "1e20", zero |-> "!", negative |-> "!"],
  miter        |-> [absent |-> "1000", good |-> "3", zero |-> "!", negative |-> "!"],
  msimul       |-> [absent |-> "1000", good |-> "7", zero |-> "!", negative |-> "!"],
  tol_grad     |-> [absent |-> "1e-5", good |-> "0.001", zero |-> "1e-5", negative |-> "!"],
  tol_feas     |-> [absent |-> "1e-5", good |-> "0.001", zero |-> "1e-5", negative |-> "!"],
  tol_bnds     |-> [absent |-> "1e-5", good |-> "0.001", zero |-> "1e-5", negative |-> "!"],
  bfgs_restart |-> [absent |-> "0", good |-> "3"],
  verbose      |-> [absent |-> "1", good |-> "2", zero |-> "0", six |-> "6", seven |-> "1", negative |-> "1"],
  fout         |-> [absent |-> "1", good |-> "1", negative |-> "1"]]
Options == DOMAIN Means
Numeric == {"dxmin", "inf", "miter", "msimul", "tol_grad", "tol_feas", "tol_bnds", "bfgs_restart", "verbose", "fout"}

Plain == [func |-> "ok", x0 |-> "ok", cons |-> "none", bounds |-> "none", optobj |-> "given",
          o |-> [n \in Options |-> IF n \in {"miter", "msimul"} THEN "good" ELSE "absent"]]
Tag(c, n) == IF c.optobj = "given" THEN c.o[n] ELSE "absent"
Meaning(c, n) == Means[n][Tag(c, n)]

BadArguments(c) == \/ c.func = "missing"
                   \/ c.x0 \in {"missing", "empty", "matrix"}
                   \/ c.cons \in {"eq_nofunc", "ineq_nofunc"}
                   \/ \E n \in Options : Meaning(c, n) = "!"
BadProblem(c) == c.bounds \in {"crossed", "lastcrossed", "fixedcrossed", "allfixed"}
\* 1: an argument is wrong, 2: unaccepted problem, 0: the run starts
Verdict(c) == IF BadArguments(c) THEN 1 ELSE IF BadProblem(c) THEN 2 ELSE 0
=============================================================================
