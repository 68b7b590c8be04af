-------------------------------- MODULE Ints --------------------------------
(* The kernel and the session over TLC's integers, for exhaustive exploration of small instances. *)
EXTENDS Session, DataFile, Json, IOUtils

IAdd(a, b) == a + b
ISub(a, b) == a - b
IMul(a, b) == a * b
ILt(a, b)  == a < b
IEq(a, b)  == a = b
IFloorDiv(a, b) == a \div b
IOfInt(a)  == a
ILost(a, b) == FALSE
\* fields of a file that are not numbers
Word    == -1
NanWord == -2
Empty   == -3
INumeric(f) == f \notin {Word, NanWord, Empty}

\* strictly increasing series starting at 0, times even so that odd lags lie half way
SortedFrom(S) == CHOOSE s \in [1..Cardinality(S) -> S] : \A i \in 1..(Cardinality(S) - 1) : s[i] < s[i + 1]
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>>
                ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Ascending(S \ {m})
AllSeries(maxT, maxM) ==
  {Ascending({0} \cup {2 * x : x \in S}) : S \in {S \in SUBSET (1..maxT) : Cardinality(S) < maxM}}

\* one line of JSON for the harness, when it asked for them (GEN=1)
Emit(rec) == IF "GEN" \in DOMAIN IOEnv /\ IOEnv.GEN = "1" THEN PrintT("GEN " \o ToJson(rec)) ELSE TRUE
=============================================================================
