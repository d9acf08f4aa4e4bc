SPECIFICATION Spec
INVARIANT Sound
CONSTRAINT Note
POSTCONDITION Done
CHECK_DEADLOCK FALSE
CONSTANT MaxSteps = 4
