SPECIFICATION Spec
CONSTANTS Bs = {1, 3, 8}
          Ivs = {2, 5}
          Pads = {0, 1, 7}
          MaxN = 25
INVARIANTS Exact Recovered
PROPERTY Stable
CHECK_DEADLOCK FALSE
