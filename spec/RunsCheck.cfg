CONSTANTS MaxSize = 6
          Tags = {0, 1, 2}
SPECIFICATION Spec
INVARIANT Agree
CHECK_DEADLOCK FALSE
