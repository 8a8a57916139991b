SPECIFICATION Spec
INVARIANTS TableAgrees NothingEvaluatedFirst RunsEvaluate OptionsTotal Printed
PROPERTY Terminates
CHECK_DEADLOCK FALSE
