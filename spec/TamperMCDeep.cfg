SPECIFICATION Spec
CONSTANTS MaxWrites = 3
          MaxTamper = 2
INVARIANTS Sound Witness
POSTCONDITION Done
CHECK_DEADLOCK FALSE
