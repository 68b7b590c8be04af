SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  P = 3
  E = 4
INVARIANTS
  GetsOn RefusesOnlyTheEndless
PROPERTY Ends
