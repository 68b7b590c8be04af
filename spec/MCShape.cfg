SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Add <- IAdd
  Sub <- ISub
  Mul <- IMul
  Lt <- ILt
  Eq <- IEq
  FloorDiv <- IFloorDiv
  Lost <- ILost
  OfInt <- IOfInt
  NaN = NaN
  Huge = 1000
  NumericField <- INumeric
  MaxM = 3
  MaxN = 2
  MaxLen = 4
INVARIANTS
  AcceptedOnlyIfRectangular EmptyNamedEmpty KeptAsGiven Generated
