SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Add <- IAdd
  Sub <- ISub
  Mul <- IMul
  Lt <- ILt
  Eq <- IEq
  FloorDiv <- IFloorDiv
  Lost <- ILost
  OfInt <- IOfInt
  NaN = NaN
  Huge = 1000
  NumericField <- INumeric
  MaxLines = 3
INVARIANTS
  OneSamplePerDataLine ErrorsAligned Direct Generated
