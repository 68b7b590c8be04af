SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Add <- IAdd
  Sub <- ISub
  Mul <- IMul
  Lt <- ILt
  Eq <- IEq
  FloorDiv <- IFloorDiv
  Lost <- ILost
  OfInt <- IOfInt
  NaN = NaN
  Huge = 1000
  NumericField <- INumeric
  MaxT = 7
  MaxM = 8
INVARIANTS
  TakesPart NearestIsPaired BeforeStart OrderKept ZeroLagIsIdentity ExactHits
  FastStartsNearest FastConsecutive FastInside FastAsLong FastIsNaturalIfEven
  UnitFree OriginFree DefaultsLaw Generated
