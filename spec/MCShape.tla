------------------------------- MODULE MCShape ------------------------------
(***************************************************************************)
(* Every combination of lengths of times, values and errors up to a bound:  *)
(* which of them make a data object (C12), and that an accepted one holds   *)
(* exactly what it was given (C10).  Contents are distinct numbers, so that *)
(* no re-splitting or truncation could go unnoticed when replayed.          *)
(***************************************************************************)
EXTENDS Ints

CONSTANTS MaxM, MaxN, MaxLen
VARIABLES m, rl, el, done
vars == <<m, rl, el, done>>

LensUpTo(n) == UNION {[1..j -> 0..MaxLen] : j \in 0..n}
Init == m \in 0..MaxM /\ rl \in LensUpTo(MaxN) /\ el = <<>> /\ done = FALSE
Next == ~done /\ done' = TRUE /\ el' \in LensUpTo(MaxN) /\ UNCHANGED <<m, rl>>
Spec == Init /\ [][Next]_vars

T    == [i \in 1..m |-> 2 * i]
Fill(lens, base) == [j \in 1..Len(lens) |-> [i \in 1..lens[j] |-> base + 10 * j + i]]
Rows == Fill(rl, 100)
Errs == Fill(el, 500)
Out  == ConstructOutcome(T, Rows, Errs)

AnyValue == \E j \in 1..Len(rl) : rl[j] > 0
AnyError == \E j \in 1..Len(el) : el[j] > 0
AcceptedOnlyIfRectangular ==
  (Out = "ok") <=> /\ m > 0 /\ AnyValue
                   /\ \A j \in 1..Len(rl) : rl[j] = m
                   /\ AnyError => Len(el) = Len(rl) /\ \A j \in 1..Len(el) : el[j] = m
EmptyNamedEmpty == (Out = "EmptyDataStructureException") <=> (m = 0 \/ ~AnyValue)
KeptAsGiven ==
  Out = "ok" => LET d == MkData(T, Rows, Errs) IN
    d.t = T /\ d.rows = Rows /\ (d.errs = Errs \/ (d.errs = <<>> /\ ~AnyError))
Generated == ~done \/ Emit([t |-> T, rows |-> Rows, errs |-> Errs])
=============================================================================
