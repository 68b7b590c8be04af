SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Add <- IAdd
  Sub <- ISub
  Mul <- IMul
  Lt <- ILt
  Eq <- IEq
  FloorDiv <- IFloorDiv
  Lost <- ILost
  OfInt <- IOfInt
  NaN = NaN
  Huge = 1000
  NumericField <- INumeric
  R = 6
  MaxRes = 5
INVARIANTS
  Refused ExactlyTheGrid EachOnce InOrder UnitFree ParametersIndependent Generated
