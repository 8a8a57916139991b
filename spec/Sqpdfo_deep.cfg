SPECIFICATION Spec
CONSTANTS N = 2  PF = 3  MITER = 3  MSIMUL = 4  FM = 3  HM = 1  Q = 1  RP = 1  DM = 5  ER = 2  PRINT = 0
INVARIANTS TypeOK IterateEvaluated WithinBudgets FlagTruth StepsInBudget ResultEvaluated SigmaEnough PredictedDecrease AcceptedBetter RadiusRange Printed
PROPERTIES MeritNeverGrows FNeverGrows SigmaGrows MovesOnlyTo RadiusLaw FailureEnds FailureKeepsIterate Terminates Refines
CHECK_DEADLOCK FALSE
