------------------------------- MODULE Storage ------------------------------
(***************************************************************************)
(* Where a correlator keeps its results, shaped like the code: one vector   *)
(* of lags and one vector of values per dataset, each resized on its own.   *)
(* MCMachine and MCStore check that it refines Stored/Trimmed of Session.   *)
(***************************************************************************)
EXTENDS Session

EmptyStore(n) == [ts |-> <<>>, rows |-> [j \in 1..n |-> <<>>]]

Resized(v, n, zero) == [i \in 1..n |-> IF i <= Len(v) THEN v[i] ELSE zero]

Cleaned(s, n, zeroLag, zero) ==
  [ts |-> Resized(s.ts, n, zeroLag), rows |-> [j \in 1..Len(s.rows) |-> Resized(s.rows[j], n, zero)]]

\* value[j] goes to position pos (0-based) of dataset j
Added(s, pos, lag, value, zeroLag, zero) ==
  LET grown == IF pos >= Len(s.ts) THEN Cleaned(s, pos + 1, zeroLag, zero) ELSE s
  IN  [ts |-> [grown.ts EXCEPT ![pos + 1] = lag],
       rows |-> [j \in 1..Len(s.rows) |-> [grown.rows[j] EXCEPT ![pos + 1] = value[j]]]]

Aligned(s) == \A j \in 1..Len(s.rows) : Len(s.rows[j]) = Len(s.ts)
=============================================================================
