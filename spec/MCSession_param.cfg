SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Add <- IAdd
  Sub <- ISub
  Mul <- IMul
  Lt <- ILt
  Eq <- IEq
  FloorDiv <- IFloorDiv
  Lost <- ILost
  OfInt <- IOfInt
  NaN = NaN
  Huge = 1000
  NumericField <- INumeric
  Profile = "param"
  Depth = 3
VIEW View
INVARIANT StorageAgrees
PROPERTIES
  NonInterference LikeFresh DataKept
  SteadyState
ACTION_CONSTRAINT Generated
