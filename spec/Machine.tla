------------------------------- MODULE Machine ------------------------------
(***************************************************************************)
(* One calculation, step by step, shaped like the code: the lag loop with   *)
(* its zero insertion, the stages of a lag (shift samples until one passes  *)
(* the end, search and choose a neighbour for each, mismatch, weigh,        *)
(* correlate), storing each result, and the final trim.                     *)
(*                                                                         *)
(* Two routes: the compiled loop and the configurable one, whose lags come  *)
(* from a generator that yields the inserted zero as a lag of its own.      *)
(*                                                                         *)
(* The value of a lag is kept as the sequence of its terms                  *)
(* <<weight function, length scale, mismatch, product of the two samples>>. *)
(* Checked (MCMachine): every index used is inside its vector, storage stays*)
(* aligned, the calculation always ends, and what it leaves is what Session *)
(* says - whatever the storage held before.                                 *)
(***************************************************************************)
EXTENDS Ints, Storage

VARIABLES
  d,        \* the data: relative times nt and rows
  p,        \* parameters
  fn,       \* [f, w]: selection and weight function asked for
  route,    \* "std" or "cfg"
  store,    \* result storage
  pc, k, pos, n, positive,   \* loop state
  emit,     \* lag being processed
  back,     \* where to go when its stages are done
  shifted, sel, delta, terms, cursor,
  held,     \* lag iterators that exist
  ret

loopvars == <<k, pos, n, positive>>
stages   == <<shifted, sel, delta, terms, cursor>>
inputs   == <<d, p, fn, route>>
vars     == <<d, p, fn, route, store, pc, k, pos, n, positive, emit, back, shifted, sel, delta, terms, cursor, held, ret>>

M == Len(d.nt)
End == d.nt[M]
NoTerms == <<>>

Enter ==
  /\ pc = "start"
  /\ IF p.res > 0
     THEN /\ pc' = "loop" /\ k' = p.min /\ pos' = 0 /\ n' = 0 /\ positive' = FALSE /\ UNCHANGED ret
     ELSE /\ pc' = "done" /\ ret' = "ValueError" /\ UNCHANGED loopvars
  /\ UNCHANGED <<inputs, store, emit, back, stages>>
  /\ UNCHANGED held

Loop ==
  /\ pc = "loop"
  /\ IF ~(k <= p.max) THEN /\ pc' = "clean" /\ UNCHANGED <<positive, emit, back, stages>>
     ELSE IF k = 0 \/ (k > 0 /\ ~positive)
     THEN /\ positive' = TRUE
          /\ emit' = 0
          /\ back' = IF k = 0 THEN "advance" ELSE "regular"
          /\ pc' = "shift" /\ shifted' = <<>> /\ sel' = <<>> /\ delta' = <<>> /\ terms' = NoTerms /\ cursor' = 1
     ELSE /\ emit' = k /\ back' = "advance" /\ UNCHANGED positive
          /\ pc' = "shift" /\ shifted' = <<>> /\ sel' = <<>> /\ delta' = <<>> /\ terms' = NoTerms /\ cursor' = 1
  /\ UNCHANGED <<inputs, store, k, pos, n, ret>>
  /\ held' = IF pc' = "shift" THEN held + 1 ELSE held

\* after an inserted zero, the lag that was due
Regular ==
  /\ pc = "regular"
  /\ emit' = k /\ back' = "advance"
  /\ pc' = "shift" /\ shifted' = <<>> /\ sel' = <<>> /\ delta' = <<>> /\ terms' = NoTerms /\ cursor' = 1
  /\ UNCHANGED <<inputs, store, loopvars, ret>>
  /\ held' = held + 1

\* samples are shifted until the first that passes the end: right because times increase
Passes(x) == IF fn.f = "natural" THEN x > End ELSE x >= End
Shift ==
  /\ pc = "shift"
  /\ IF fn.f \notin SelectionNames \/ fn.w \notin WeightNames
     THEN pc' = "done" /\ ret' = "KeyError" /\ UNCHANGED <<shifted, cursor>>
     ELSE IF cursor > M \/ Passes(d.nt[cursor] + emit)
     THEN /\ pc' = "select" /\ cursor' = 1 /\ UNCHANGED <<shifted, ret>>
     ELSE /\ shifted' = Append(shifted, d.nt[cursor] + emit) /\ cursor' = cursor + 1 /\ UNCHANGED <<pc, ret>>
  /\ UNCHANGED <<inputs, store, loopvars, emit, back, sel, delta, terms>>
  /\ held' = IF pc' = "done" THEN 0 ELSE held

\* least index not before x (M + 1 if there is none: must never be used)
Search(x) == CHOOSE i \in 1..(M + 1) : (i = M + 1 \/ d.nt[i] >= x) /\ \A j \in 1..(i - 1) : d.nt[j] < x
Closest(x) ==
  LET i == Search(x) IN
  IF i > 1 /\ Abs(x - d.nt[i - 1]) < Abs(x - d.nt[i]) THEN i - 1 ELSE i

Select ==
  /\ pc = "select"
  /\ IF fn.f = "natural"
     THEN IF cursor > Len(shifted)
          THEN pc' = "mismatch" /\ cursor' = 1 /\ UNCHANGED sel
          ELSE sel' = Append(sel, Closest(shifted[cursor])) /\ cursor' = cursor + 1 /\ UNCHANGED pc
     ELSE /\ pc' = "mismatch" /\ cursor' = 1
          /\ IF shifted = <<>> THEN UNCHANGED sel
             ELSE LET i0 == Closest(shifted[1])
                      many == IF Len(shifted) < M - i0 + 1 THEN Len(shifted) ELSE M - i0 + 1
                  IN  sel' = [i \in 1..many |-> i0 + i - 1]
  /\ UNCHANGED <<inputs, store, loopvars, emit, back, shifted, delta, terms, ret>>
  /\ UNCHANGED held

Mismatch ==
  /\ pc = "mismatch"
  /\ IF cursor > Len(sel) THEN pc' = "correlate" /\ shifted' = <<>> /\ cursor' = 1 /\ UNCHANGED delta
     ELSE /\ delta' = Append(delta, Abs(d.nt[sel[cursor]] - shifted[cursor]))
          /\ cursor' = cursor + 1 /\ UNCHANGED <<pc, shifted>>
  /\ UNCHANGED <<inputs, store, loopvars, emit, back, sel, terms, ret>>
  /\ UNCHANGED held

Correlate ==
  /\ pc = "correlate"
  /\ terms' = [j \in 1..Len(d.rows) |->
                [i \in 1..Len(delta) |-> <<fn.w, p.a2, delta[i], <<i, sel[i], j>> >>]]
  /\ pc' = "add"
  /\ UNCHANGED <<inputs, store, loopvars, emit, back, shifted, sel, delta, cursor, ret>>
  /\ UNCHANGED held

Add2 ==
  /\ pc = "add"
  /\ store' = Added(store, pos, emit, terms, 0, <<>>)
  /\ pos' = pos + 1 /\ n' = pos + 1
  /\ pc' = back
  /\ UNCHANGED <<inputs, k, positive, emit, back, stages, ret>>
  /\ held' = held - 1

Advance ==
  /\ pc = "advance"
  /\ k' = k + p.res /\ pc' = "loop"
  /\ UNCHANGED <<inputs, store, pos, n, positive, emit, back, stages, ret>>
  /\ UNCHANGED held

Clean ==
  /\ pc = "clean"
  /\ store' = Cleaned(store, IF route = "std" THEN pos ELSE n, 0, <<>>)
  /\ pc' = "done" /\ ret' = "ok"
  /\ UNCHANGED <<inputs, loopvars, emit, back, stages>>
  /\ UNCHANGED held

Next == Enter \/ Loop \/ Regular \/ Shift \/ Select \/ Mismatch \/ Correlate \/ Add2 \/ Advance \/ Clean

-----------------------------------------------------------------------------
(* Instances *)
CONSTANTS MaxT, MaxM, R, MaxRes

OldValue == << <<"old", 0, 0, <<0, 0, 0>> >> >>
Junk == {[ts |-> <<>>, rows |-> <<>>],
         [ts |-> <<7, 7, 9>>, rows |-> <<>>]}      \* rows filled in by Init

Init ==
  /\ d \in {[nt |-> s, rows |-> [j \in 1..2 |-> <<>>]] : s \in AllSeries(MaxT, MaxM)}
  /\ p \in [max : (-R)..R, min : (-R)..R, res : 0..MaxRes, a2 : {3}]
  /\ fn \in [f : {"natural", "fast"}, w : {"gaussian"}] \cup {[f |-> "natural", w |-> "none"]}
  /\ route \in {"std", "cfg"}
  /\ \E junk \in Junk : store = [ts |-> junk.ts, rows |-> [j \in 1..2 |-> [i \in 1..Len(junk.ts) |-> OldValue]]]
  /\ pc = "start" /\ k = 0 /\ pos = 0 /\ n = 0 /\ positive = FALSE /\ emit = 0 /\ back = "loop"
  /\ shifted = <<>> /\ sel = <<>> /\ delta = <<>> /\ terms = <<>> /\ cursor = 1 /\ ret = "none" /\ held = 0

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
\* every index is inside the vector it is used on
InBounds ==
  /\ \A i \in 1..Len(sel) : sel[i] \in 1..M
  /\ Len(sel) <= M
  /\ pc \in {"select", "mismatch"} => Len(sel) <= Len(shifted)
  /\ pc = "select" /\ cursor <= Len(shifted) => Search(shifted[cursor]) <= M
StoreAligned == Aligned(store)

Kernel(lag, j) ==
  LET s == Selection(fn.f, d.nt, lag)
      dl == Deltas(d.nt, lag, s)
  IN  [i \in 1..Len(s) |-> <<fn.w, p.a2, dl[i], <<i, s[i], j>> >>]

\* what is left at the end is what Session says, whatever was stored before
RefinesSession ==
  pc = "done" =>
    /\ ret = CalcOutcome(p, fn.f, fn.w)
    /\ ret = "ok" =>
         /\ store.ts = LagSeq(p)
         /\ \A j \in 1..2 : store.rows[j] = [i \in 1..Len(store.ts) |-> Kernel(store.ts[i], j)]

\* progress: the loop variable only grows, and storing follows it
LoopProgress == [][k' >= k \/ pc = "start"]_vars
StoredSoFar ==
  pc \in {"loop", "advance", "regular"} =>
    /\ pos <= Len(store.ts)
    /\ \A i \in 1..(pos - 1) : store.ts[i] < store.ts[i + 1]
    /\ (p.res > 0 /\ pos > 0 /\ fn.w # "none") => SubSeq(store.ts, 1, pos) = SubSeq(LagSeq(p), 1, pos)
\* one lag iterator at a time, and none is left over
NothingHeld == held \in {0, 1} /\ (pc \in {"loop", "advance", "regular", "clean", "done"} => held = 0)
Terminates == <>(pc = "done")
=============================================================================
