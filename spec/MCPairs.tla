------------------------------- MODULE MCPairs ------------------------------
(***************************************************************************)
(* Every small sampling with every lag on and half way between the sampling *)
(* grid: the pairing functions of the kernel, which say HOW pairs are found,*)
(* satisfy the declarative properties, which say WHAT a right pairing is.   *)
(***************************************************************************)
EXTENDS Ints

CONSTANTS MaxT, MaxM
VARIABLES t, k
vars == <<t, k>>

Lags == (-2 * MaxT - 3)..(2 * MaxT + 3)
Far  == 1000         \* the lag before one is chosen: beyond every span, and a legal lag like any other
Init == t \in AllSeries(MaxT, MaxM) /\ k = Far
Next == k = Far /\ k' \in Lags /\ UNCHANGED t
Spec == Init /\ [][Next]_vars

Last    == LastOf(t)
Dist(i, j) == Abs(t[j] - (t[i] + k))
Ntl     == NaturalSel(t, k)
Fst     == FastSel(t, k)

\* C02
TakesPart == /\ \A i \in 1..Len(t) : (i <= Len(Ntl)) <=> (t[i] + k <= Last)
NearestIsPaired ==
  \A i \in 1..Len(Ntl) : \A j \in 1..Len(t) :
    /\ Dist(i, Ntl[i]) <= Dist(i, j)
    /\ Dist(i, j) = Dist(i, Ntl[i]) => j <= Ntl[i]
BeforeStart == \A i \in 1..Len(Ntl) : t[i] + k < 0 => Ntl[i] = 1
OrderKept   == \A i \in 1..(Len(Ntl) - 1) : Ntl[i] <= Ntl[i + 1]
\* C05: no shift, no change
ZeroLagIsIdentity ==
  k = 0 => Ntl = [i \in 1..Len(t) |-> i] /\ Deltas(t, 0, Ntl) = [i \in 1..Len(t) |-> 0]
ExactHits == \A i \in 1..Len(Ntl) : (\E j \in 1..Len(t) : t[j] = t[i] + k) => Deltas(t, k, Ntl)[i] = 0

\* C16
FastStartsNearest == Fst # <<>> =>
  \A j \in 1..Len(t) : /\ Dist(1, Fst[1]) <= Dist(1, j)
                       /\ Dist(1, j) = Dist(1, Fst[1]) => j <= Fst[1]
FastConsecutive == \A i \in 1..(Len(Fst) - 1) : Fst[i + 1] = Fst[i] + 1
FastInside      == \A i \in 1..Len(Fst) : Fst[i] \in 1..Len(t)
FastAsLong      ==
  LET n == Cardinality({i \in 1..Len(t) : t[i] + k < Last}) IN
  /\ Len(Fst) <= n
  /\ Len(Fst) < n => Fst # <<>> /\ Fst[Len(Fst)] = Len(t)
Even == \A i \in 1..(Len(t) - 1) : t[i + 1] - t[i] = t[2] - t[1]
FastIsNaturalIfEven ==
  (Len(t) > 1 /\ Even /\ k >= 0 /\ k % (t[2] - t[1]) = 0) =>
    /\ Fst = SubSeq(Ntl, 1, Len(Fst))
    /\ \A i \in (Len(Fst) + 1)..Len(Ntl) : Ntl[i] = Len(t)

\* C06: neither the origin nor the unit of time matters
Scaled(s, c) == [i \in 1..Len(s) |-> c * s[i]]
Shifted(s, c) == [i \in 1..Len(s) |-> s[i] + c]
UnitFree == \A c \in {2, 3} :
  /\ NaturalSel(Scaled(t, c), c * k) = Ntl
  /\ FastSel(Scaled(t, c), c * k) = Fst
  /\ Deltas(Scaled(t, c), c * k, Ntl) = Scaled(Deltas(t, k, Ntl), c)
OriginFree == \A c \in {-7, 1, 100} : NormT(Shifted(t, c)) = t

\* C09
DefaultsLaw ==
  LET p == Defaults(t) IN
  /\ p.max = t[Len(t)] - t[1] /\ p.min = -p.max
  /\ Len(t) > 1 => /\ \A i \in 1..(Len(t) - 1) : p.res <= t[i + 1] - t[i]
                   /\ \E i \in 1..(Len(t) - 1) : p.res = t[i + 1] - t[i]
  /\ p.res > 0
  \* a2/2 has as many samples on either side
  /\ Cardinality({i \in 1..Len(t) : 2 * t[i] < p.a2}) = Cardinality({i \in 1..Len(t) : 2 * t[i] > p.a2})
  /\ \A c \in {2, 3} : LET q == Defaults(Scaled(t, c)) IN
       Len(t) > 1 => q = [max |-> c * p.max, min |-> c * p.min, res |-> c * p.res, a2 |-> c * p.a2]

Generated == k # Far \/ Emit([t |-> t])
=============================================================================
