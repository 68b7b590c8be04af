------------------------------- MODULE MCValue ------------------------------
(***************************************************************************)
(* Every small series with every small row of values, missing ones          *)
(* included, and every lag: laws of the correlation before weighting.       *)
(* A correlation at a lag is  Sum(weight(delta) * product) / SumSquares;    *)
(* the weight of a pair depends on nothing but its delta, so laws about     *)
(* deltas and products are laws about values, for all weight functions.     *)
(***************************************************************************)
EXTENDS Ints

CONSTANTS MaxT, MaxM, Vals
SmallVals == {-1, 0, 2}
VARIABLES t, row, k
vars == <<t, row, k>>

RowsOf(s) == [1..Len(s) -> Vals \cup {NaN}]
Far  == 1000
Init == /\ t \in AllSeries(MaxT, MaxM)
        /\ row \in RowsOf(t)
        /\ k = Far
Next == k = Far /\ k' \in {2 * x : x \in (-MaxT)..MaxT} \cup {-3, -1, 1, 3} /\ UNCHANGED <<t, row>>
Spec == Init /\ [][Next]_vars

Y      == Centred(row)
V      == Valid(row)
Sels   == {NaturalSel(t, k), FastSel(t, k)}
Moved(f, c) == [i \in 1..Len(row) |-> IF row[i] = NaN THEN NaN ELSE f * row[i] + c]

CentredSumsToZero == Total(Y) = 0
\* C05: at lag zero of a complete series every delta is 0 and the products are the squares
ZeroLagIsOne ==
  (k = 0 /\ V = 1..Len(row)) =>
     LET sel == NaturalSel(t, 0) IN
     SumSeq(Products(Y, sel)) = SumSquares(Y) /\ \A i \in 1..Len(sel) : Deltas(t, 0, sel)[i] = 0
ConstantHasNoVariance ==
  (SumSquares(Y) = 0) <=> (\A i, j \in V : row[i] = row[j])
\* C06: an offset disappears, a factor is squared in numerator and denominator alike
OffsetFree == \A c \in {-5, 1} : Centred(Moved(1, c)) = Y
ScaleFree  == \A f \in {-1, 3} :
  LET y == Centred(Moved(f, 0)) IN
  /\ SumSquares(y) = f * f * SumSquares(Y)
  /\ \A sel \in Sels : \A i \in 1..Len(sel) :
       Products(y, sel)[i] = IF Products(Y, sel)[i] = NaN THEN NaN ELSE f * f * Products(Y, sel)[i]
\* C11: missing exactly where a pair involves a missing sample, and the rest as if it were not there
MissingContained ==
  /\ \A sel \in Sels : \A i \in 1..Len(sel) :
       (Products(Y, sel)[i] = NaN) <=> (row[i] = NaN \/ row[sel[i]] = NaN)
  /\ \A i \in V : Y[i] # NaN
  /\ Cardinality(V) * Total(row) = SumSeq([i \in 1..Len(row) |-> IF i \in V THEN Cardinality(V) * row[i] ELSE 0])
\* a pair of samples never counts more than its squares allow: no value above the number of pairs
Bounded ==
  \A sel \in Sels : \A i \in 1..Len(sel) :
    LET x == Products(Y, sel)[i] IN
    x # NaN => 2 * Abs(x) <= Y[i] * Y[i] + Y[sel[i]] * Y[sel[i]]

\* C22: on even sampling, n steps of lag pair every sample with the one n later, exactly; fast selection leaves out the
\* pair that ends on the last sample
ClassicOnEven ==
  (k # Far /\ EvenTimes(t) /\ k >= 0 /\ k % MinGap(t) = 0) =>
    LET n == k \div MinGap(t) IN
    \A f \in {"natural", "fast"} :
      LET sel == Selection(f, t, k) IN
      /\ sel = [i \in ClassicPairs(Len(t), n, IF f = "fast" THEN 1 ELSE 0) |-> i + n]
      /\ \A i \in 1..Len(sel) : Deltas(t, k, sel)[i] = 0
      /\ Products(Y, sel) = [i \in ClassicPairs(Len(t), n, IF f = "fast" THEN 1 ELSE 0) |-> Product(Y[i], Y[i + n])]

Generated == k # Far \/ Emit([t |-> t, row |-> [i \in 1..Len(row) |-> IF row[i] = NaN THEN "nan" ELSE ToString(row[i])]])
=============================================================================
