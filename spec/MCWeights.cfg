SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Add <- RAdd
  Sub <- RSub
  Mul <- RMul
  Lt  <- RLt
  Eq  <- REq
  FloorDiv <- RFloorDiv
  Lost <- RLost
  OfInt <- RInt
  NaN = "nan"
  Huge = "1000"
  MaxR = 160
INVARIANTS
  One Between Decays RatioOnly Known
