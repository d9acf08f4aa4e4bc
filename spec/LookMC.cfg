SPECIFICATION Spec
INVARIANT Sound
CONSTRAINT Note
POSTCONDITION Done
CHECK_DEADLOCK FALSE
CONSTANTS Objects = {a}
          MaxTime = 5
