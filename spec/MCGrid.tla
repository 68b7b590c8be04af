-------------------------------- MODULE MCGrid ------------------------------
(***************************************************************************)
(* Every small lag range and resolution: the lag sequence of the kernel is  *)
(* the requested grid, declaratively (C01), scales with the unit of time    *)
(* (C06), and parameters are applied independently of each other (C09).     *)
(***************************************************************************)
EXTENDS Ints

CONSTANTS R, MaxRes
VARIABLE p
Init == p \in [max : -R..R, min : -R..R, res : -1..MaxRes, a2 : {3}]
Spec == Init /\ [][FALSE]_p

Good   == p.res > 0
Steps  == {p.min + i * p.res : i \in 0..(2 * R)} \cap (p.min..p.max)
Wanted == Steps \cup (IF \E x \in Steps : x > 0 THEN {0} ELSE {})
L      == LagSeq(p)

Refused == (CalcOutcome(p, "natural", "fractional") = "ok") <=> Good
ExactlyTheGrid == Good => {L[i] : i \in 1..Len(L)} = Wanted
EachOnce       == Good => Len(L) = Cardinality(Wanted)
InOrder        == Good => \A i \in 1..(Len(L) - 1) : L[i] < L[i + 1]
UnitFree       == Good => \A c \in {2, 3} :
  LagSeq([max |-> c * p.max, min |-> c * p.min, res |-> c * p.res, a2 |-> c * p.a2])
    = [i \in 1..Len(L) |-> c * L[i]]

\* applying the given parameters: each lands in its own place, the rest stay
Names == {"max_lag", "min_lag", "lag_resolution", "alpha"}
Base  == [max |-> 40, min |-> -41, res |-> 42, a2 |-> 43]
Given(S) == [max_lag        |-> IF "max_lag" \in S THEN <<p.max>> ELSE <<>>,
             min_lag        |-> IF "min_lag" \in S THEN <<p.min>> ELSE <<>>,
             lag_resolution |-> IF "lag_resolution" \in S THEN <<p.res>> ELSE <<>>,
             alpha          |-> IF "alpha" \in S THEN <<p.a2>> ELSE <<>>]
ParametersIndependent == \A S \in SUBSET Names :
  LET q == SetGiven(Base, Given(S)) IN
  /\ q.max = IF "max_lag" \in S THEN p.max ELSE Base.max
  /\ q.min = IF "min_lag" \in S THEN p.min ELSE Base.min
  /\ q.res = IF "lag_resolution" \in S THEN p.res ELSE Base.res
  /\ q.a2  = IF "alpha" \in S THEN 2 * p.a2 ELSE Base.a2

Generated == Emit([max |-> p.max, min |-> p.min, res |-> p.res])
=============================================================================
