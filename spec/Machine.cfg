SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Add <- IAdd
  Sub <- ISub
  Mul <- IMul
  Lt <- ILt
  Eq <- IEq
  FloorDiv <- IFloorDiv
  Lost <- ILost
  OfInt <- IOfInt
  NaN = NaN
  Huge = 1000
  NumericField <- INumeric
  MaxT = 3
  MaxM = 4
  R = 3
  MaxRes = 3
INVARIANTS
  InBounds StoreAligned RefinesSession StoredSoFar NothingHeld
PROPERTIES
  LoopProgress Terminates
