SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Add <- IAdd
  Sub <- ISub
  Mul <- IMul
  Lt <- ILt
  Eq <- IEq
  FloorDiv <- IFloorDiv
  Lost <- ILost
  OfInt <- IOfInt
  NaN = NaN
  Huge = 1000
  NumericField <- INumeric
  MaxT = 5
  MaxM = 4
  Vals <- SmallVals
INVARIANTS
  CentredSumsToZero ZeroLagIsOne ConstantHasNoVariance OffsetFree ScaleFree MissingContained Bounded ClassicOnEven Generated
