SPECIFICATION Spec
CONSTANTS N = 3  PF = 5  MITER = 9  MSIMUL = 24  FM = 14  HM = 2  Q = 3  RP = 2  DM = 40  ER = 8  PRINT = 1
INVARIANTS TypeOK IterateEvaluated WithinBudgets FlagTruth StepsInBudget ResultEvaluated SigmaEnough PredictedDecrease AcceptedBetter RadiusRange Printed
CHECK_DEADLOCK FALSE
