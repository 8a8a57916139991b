------------------------------ MODULE SqpRules ------------------------------
(* The decisions of the trust-region SQP loop of sqpdfo_main, over an       *)
(* abstract ordered arithmetic.  Sqpdfo.tla instantiates it with small      *)
(* integers (exhaustive checking); SqpTrace.tla with IEEE doubles (checking *)
(* of runs of the real code).  Both therefore use one set of rules.         *)
EXTENDS Integers
CONSTANTS Add(_, _), Sub(_, _), Mul(_, _), Le(_, _), Lt(_, _), Max(_, _), Min(_, _),
          Half(_),      \* shrinking a radius
          DMax,         \* largest radius
          DFive,        \* the radius below which a very successful active step multiplies it by five
          EpsRad,       \* radius not shrunk any further by a rejected step
          Eta1N, Eta1D, \* eta1 = Eta1N / Eta1D : smallest acceptable ratio
          Eta2N, Eta2D  \* eta2 : very successful

Merit(f, sigma, feas) == Add(f, Mul(sigma, feas))

\* the penalty parameter never decreases, and jumps by at least one half when the threshold exceeds it
NewSigma(sigma, threshold, grown) == IF Lt(sigma, threshold) THEN Max(threshold, grown) ELSE sigma

\* actual reduction at least eta1 times the predicted one
Accepts(merit0, merit, pred) == /\ Lt(0, pred)
                                /\ Le(Mul(pred, Eta1N), Mul(Sub(merit0, merit), Eta1D))
VerySuccessful(merit0, merit, pred) == /\ Lt(0, pred)
                                       /\ Le(Mul(pred, Eta2N), Mul(Sub(merit0, merit), Eta2D))

RadiusVery(delta, norms, active) ==
  IF active /\ Lt(delta, DFive) THEN Mul(delta, 5) ELSE Min(Max(Mul(2, norms), delta), DMax)
RadiusGood(delta, norms, active) ==
  IF active THEN Min(Mul(delta, 2), DMax) ELSE Min(Max(Mul(2, norms), delta), DMax)
RadiusReject(delta) == IF Lt(EpsRad, delta) THEN Half(delta) ELSE delta

\* budgets, tested in this order at the head of every pass of the loop
BudgetFlag(niter, miter, nsimul, msimul) ==
  IF niter >= miter THEN 5 ELSE IF nsimul >= msimul THEN 6 ELSE 0

Flags == 0..30
FlagsDocumented == {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 15, 20, 21, 22, 30}
=============================================================================
