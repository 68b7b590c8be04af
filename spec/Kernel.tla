------------------------------ MODULE Kernel -------------------------------
(***************************************************************************)
(* What the selective autocorrelation estimator computes, as functions.     *)
(*                                                                         *)
(* The numbers are a parameter of the module: MC*.tla instantiate it with   *)
(* TLC integers (exhaustive exploration), Trace.tla with decimals of any    *)
(* size (Rat.tla: the doubles that went in and came out of the code).       *)
(*                                                                         *)
(* Deliberate facts about this code base, modelled as they are:             *)
(*  - at a negative lag, samples shifted before the first observation are   *)
(*    NOT dropped: they are paired with the first observation;              *)
(*  - lag 0 is put in before the first positive lag even if the range asked *)
(*    for starts above 0;                                                   *)
(*  - fast selection drops a sample shifted exactly onto the last           *)
(*    observation, natural selection keeps it;                              *)
(*  - a missing value (NaN) is left out of the mean and of the variance but *)
(*    makes every product it takes part in NaN.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
  Add(_, _), Sub(_, _), Mul(_, _),   \* number arithmetic
  Lt(_, _), Eq(_, _),                \* number comparison
  FloorDiv(_, _),                    \* an integer: floor(a / b)
  Lost(_, _),                        \* is the step b lost in rounding when added to a?
  OfInt(_),                          \* a (small) integer as a number
  NaN,                               \* the missing value
  Huge                               \* the spacing of a series of one sample

Zero      == OfInt(0)
Leq(a, b) == ~Lt(b, a)
Neg(a)    == Sub(Zero, a)
Abs(a)    == IF Lt(a, Zero) THEN Neg(a) ELSE a

RECURSIVE SumRange(_, _, _)
SumRange(f, lo, hi) ==
  IF lo > hi THEN Zero
  ELSE IF lo = hi THEN f[lo]
  ELSE LET mid == (lo + hi) \div 2 IN Add(SumRange(f, lo, mid), SumRange(f, mid + 1, hi))
SumSeq(f) == SumRange(f, 1, Len(f))

RECURSIVE LeastRange(_, _, _)
LeastRange(f, lo, hi) ==
  IF lo = hi THEN f[lo]
  ELSE LET mid == (lo + hi) \div 2
           a   == LeastRange(f, lo, mid)
           b   == LeastRange(f, mid + 1, hi)
       IN  IF Lt(b, a) THEN b ELSE a

-----------------------------------------------------------------------------
(* Sampling *)

NormT(t)  == [i \in 1..Len(t) |-> Sub(t[i], t[1])]
LastOf(s) == s[Len(s)]

MinGap(nt) ==
  IF Len(nt) = 1 THEN Huge
  ELSE LeastRange([i \in 1..(Len(nt) - 1) |-> Sub(nt[i + 1], nt[i])], 1, Len(nt) - 1)

\* twice the median time (twice, so that it stays an integer in the integer model)
Median2(nt) ==
  LET m == Len(nt) IN
  IF m % 2 = 0 THEN Add(nt[m \div 2], nt[m \div 2 + 1])
               ELSE Add(nt[m \div 2 + 1], nt[m \div 2 + 1])

StrictlyIncreasing(t) == \A i \in 1..(Len(t) - 1) : Lt(t[i], t[i + 1])

\* the parameters a correlation has until the user changes them; a2 is twice alpha
Defaults(nt) ==
  [max |-> LastOf(nt), min |-> Neg(LastOf(nt)), res |-> MinGap(nt), a2 |-> Median2(nt)]

-----------------------------------------------------------------------------
(* Lags *)

\* a <= b, which not-a-number never is
Ordered(a, b) == Lt(a, b) \/ (Eq(a, b) /\ a # NaN)

\* stepping would not get on: an infinite limit, or a resolution below the precision of the limits
Endless(p) == Ordered(p.min, p.max) /\ (Lost(p.min, p.res) \/ Lost(p.max, p.res))

LagSeq(p) ==
  LET n     == IF ~Ordered(p.min, p.max) THEN 0
               ELSE IF Lt(Sub(p.max, p.min), p.res) THEN 1
               ELSE FloorDiv(Sub(p.max, p.min), p.res) + 1
      step  == [i \in 1..n |-> IF i = 1 THEN p.min ELSE Add(p.min, Mul(OfInt(i - 1), p.res))]
      neg   == Cardinality({i \in 1..n : Lt(step[i], Zero)})
      plain == neg = n \/ Eq(step[neg + 1], Zero)
  IN  IF plain THEN step
      ELSE [i \in 1..(n + 1) |-> CASE i <= neg    -> step[i]
                                   [] i = neg + 1 -> Zero
                                   [] OTHER       -> step[i - 1]]

-----------------------------------------------------------------------------
(* Pairing.  Indices are 1-based here, 0-based in the code. *)

\* least index in lo..hi whose time is not below s; hi if there is none before it
RECURSIVE LowerBound(_, _, _, _)
LowerBound(nt, s, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi) \div 2
       IN  IF Lt(nt[mid], s) THEN LowerBound(nt, s, mid + 1, hi) ELSE LowerBound(nt, s, lo, mid)

\* the observation nearest in time to s <= last: the later one on a tie
Nearest(nt, s) ==
  LET g == LowerBound(nt, s, 1, Len(nt)) IN
  IF g > 1 /\ Lt(Abs(Sub(s, nt[g - 1])), Abs(Sub(s, nt[g]))) THEN g - 1 ELSE g

NaturalCount(nt, k) == Cardinality({i \in 1..Len(nt) : Leq(Add(nt[i], k), LastOf(nt))})
FastCount(nt, k)    == Cardinality({i \in 1..Len(nt) : Lt(Add(nt[i], k), LastOf(nt))})

NaturalSel(nt, k) == [i \in 1..NaturalCount(nt, k) |-> Nearest(nt, Add(nt[i], k))]

FastSel(nt, k) ==
  LET n     == FastCount(nt, k)
      first == Nearest(nt, Add(nt[1], k))
      rest  == Len(nt) - first + 1
  IN  IF n = 0 THEN <<>> ELSE [i \in 1..(IF n < rest THEN n ELSE rest) |-> first + i - 1]

Selection(f, nt, k) == IF f = "natural" THEN NaturalSel(nt, k) ELSE FastSel(nt, k)

\* |time of the paired observation - shifted time|
Deltas(nt, k, sel) == [i \in 1..Len(sel) |-> Abs(Sub(nt[sel[i]], Add(nt[i], k)))]

-----------------------------------------------------------------------------
(* Values *)

Valid(row)  == {i \in 1..Len(row) : row[i] # NaN}
Total(row)  == SumSeq([i \in 1..Len(row) |-> IF row[i] = NaN THEN Zero ELSE row[i]])

\* (number of valid values) * (value - mean): an integer for integer values
Centred(row) ==
  LET n == OfInt(Cardinality(Valid(row)))
      s == TLCEval(Total(row))
  IN  [i \in 1..Len(row) |-> IF row[i] = NaN THEN NaN ELSE Sub(Mul(n, row[i]), s)]

SumSquares(y) == SumSeq([i \in 1..Len(y) |-> IF y[i] = NaN THEN Zero ELSE Mul(y[i], y[i])])

\* what each pair contributes, before weighting
Product(a, b)    == IF a = NaN \/ b = NaN THEN NaN ELSE Mul(a, b)
Products(y, sel) == [i \in 1..Len(sel) |-> Product(y[i], y[sel[i]])]

-----------------------------------------------------------------------------
(* Even sampling: the ordinary autocorrelation *)

EvenTimes(nt) == \A i \in 1..Len(nt) : Eq(nt[i], Mul(OfInt(i - 1), MinGap(nt)))
\* the sum over all pairs n samples apart, the last "but" of them left out
ClassicPairs(m, n, but) == 1..(IF m - n - but > 0 THEN m - n - but ELSE 0)
ClassicSum(y, n, but)   == SumSeq([i \in ClassicPairs(Len(y), n, but) |-> Product(y[i], y[i + n])])

-----------------------------------------------------------------------------
(* Construction *)

RECURSIVE Flat(_)
Flat(rows) == IF rows = <<>> THEN <<>> ELSE Head(rows) \o Flat(Tail(rows))

Rectangular(rows, n, m) == Len(rows) = n /\ \A j \in 1..Len(rows) : Len(rows[j]) = m

\* what constructing a data object from times, value rows and error rows answers
ConstructOutcome(t, rows, errs) ==
  IF t = <<>> \/ Flat(rows) = <<>> THEN "EmptyDataStructureException"
  ELSE IF ~Rectangular(rows, Len(rows), Len(t)) THEN "BadDataInputException"
  ELSE IF Flat(errs) # <<>> /\ ~Rectangular(errs, Len(rows), Len(t)) THEN "BadDataInputException"
  ELSE "ok"

MkData(t, rows, errs) ==
  [t |-> t, rows |-> rows, errs |-> IF Flat(errs) = <<>> THEN <<>> ELSE errs]

SelectionNames == {"natural", "fast"}
WeightNames    == {"fractional", "fractional_squared", "gaussian"}

\* what a calculation answers (a range without lags uses no function, so asks for none)
CalcOutcome(p, sel, w) ==
  IF ~Lt(Zero, p.res) \/ Endless(p) THEN "ValueError"
  ELSE IF (sel \notin SelectionNames \/ w \notin WeightNames) /\ LagSeq(p) # <<>> THEN "KeyError"
  ELSE "ok"
=============================================================================
