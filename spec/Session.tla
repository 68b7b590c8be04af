------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* The library as a client sees it: a session holds data objects,           *)
(* correlators and lag iterators under handles, and changes them by calls.  *)
(*                                                                         *)
(* A state is a record                                                      *)
(*   ds : handle -> data object (times, value rows, error rows)             *)
(*   co : handle -> correlator  (its data, parameters, stored lags, cells)  *)
(*   it : handle -> lag iterator (lag, stage, what each stage has fixed)    *)
(* and a call is a record with the field op and its arguments; Answer says  *)
(* whether the library accepts it and Apply what it does.  MCSession        *)
(* explores all calls over small constants and prints its transitions as    *)
(* call sequences to replay on the code, and Trace follows what the code    *)
(* was recorded doing: both use the same Answer and Apply.                  *)
(*                                                                         *)
(* A stored value is kept as a symbol - a cell saying at which lag, with    *)
(* which selection, weight and length scale it was computed - because what  *)
(* number it stands for is a function of the data and the cell alone        *)
(* (Value in Num.tla).  That a result is independent of everything else is  *)
(* then built in, and every recorded number is held to it.                  *)
(***************************************************************************)
EXTENDS Kernel

EmptyMap == [x \in {} |-> 0]
Put(f, x, v) == [y \in (DOMAIN f) \cup {x} |-> IF y = x THEN v ELSE f[y]]
Drop(f, x)   == [y \in (DOMAIN f) \ {x} |-> f[y]]

InitialSession == [ds |-> EmptyMap, co |-> EmptyMap, it |-> EmptyMap]

ZeroCell == [k |-> Zero, f |-> "none", w |-> "none", a2 |-> Zero]

NewCorrelator(d) == [d |-> d, p |-> TLCEval(Defaults(TLCEval(NormT(d.t)))), lags |-> <<>>, cells |-> <<>>]

\* parameters as set by the user; alpha is kept doubled
SetParam(p, name, v) ==
  CASE name = "max_lag"        -> [p EXCEPT !.max = v]
    [] name = "min_lag"        -> [p EXCEPT !.min = v]
    [] name = "lag_resolution" -> [p EXCEPT !.res = v]
    [] name = "alpha"          -> [p EXCEPT !.a2 = Add(v, v)]

\* given : parameter name -> <<value>>, or <<>> for "not given"
SetGiven(p, given) ==
  LET one(q, name) == IF given[name] = <<>> THEN q ELSE SetParam(q, name, given[name][1])
  IN  one(one(one(one(p, "max_lag"), "min_lag"), "lag_resolution"), "alpha")

Calculated(c, f, w) ==
  LET lags == TLCEval(LagSeq(c.p)) IN
  [c EXCEPT !.lags  = lags,
            !.cells = [i \in 1..Len(lags) |-> [k |-> lags[i], f |-> f, w |-> w, a2 |-> c.p.a2]]]

\* storing at a (0-based) position: positions skipped are zeros
Stored(c, pos, lag, cell) ==
  LET old == Len(c.lags)
      len == IF pos + 1 > old THEN pos + 1 ELSE old
  IN  [c EXCEPT !.lags  = [i \in 1..len |-> IF i = pos + 1 THEN lag  ELSE IF i <= old THEN c.lags[i]  ELSE Zero],
                !.cells = [i \in 1..len |-> IF i = pos + 1 THEN cell ELSE IF i <= old THEN c.cells[i] ELSE ZeroCell]]

Trimmed(c, n) ==
  [c EXCEPT !.lags  = [i \in 1..n |-> IF i <= Len(c.lags) THEN c.lags[i] ELSE Zero],
            !.cells = [i \in 1..n |-> IF i <= Len(c.lags) THEN c.cells[i] ELSE ZeroCell]]

\* An iterator goes through its stages once, in order, on data d.  What was found is for the lag it had when
\* selecting (at); k is what it is called, and stored as, and may be changed - before selecting, or once the mismatches
\* are known.
NewIterator(k, c, d) == [k |-> k, at |-> k, c |-> c, d |-> d, stage |-> "new", f |-> "none", w |-> "none", a2 |-> Zero]
IterCell(i)    == IF i.stage = "found" THEN [k |-> i.at, f |-> i.f, w |-> i.w, a2 |-> i.a2] ELSE ZeroCell

\* Stages called out of order, twice, or with a correlator of other data may do anything to the iterator - but to
\* nothing else: its lag is as before, what it holds is unknown, and so is the value of it that is stored.
Orderly(st, a) ==
  LET i == st.it[a.i] IN
  CASE a.op = "select" -> i.stage = "new"      /\ st.co[a.c].d = i.d
    [] a.op = "delta"  -> i.stage = "selected" /\ st.co[a.c].d = i.d
    [] a.op = "weigh"  -> i.stage = "delta"
    [] a.op = "find"   -> i.stage = "weighted" /\ st.co[a.c].d = i.d
SameWidth(st, a) == Len(st.it[a.i].d.rows) = Len(st.co[a.c].d.rows)
UnknownCell == [ZeroCell EXCEPT !.f = "unknown"]
StoredCell(i, c) == IF i.stage = "spoilt" \/ (i.stage = "found" /\ i.d # c.d) THEN UnknownCell ELSE IterCell(i)

OneShot(d, given, f, w) ==
  LET c == [NewCorrelator(d) EXCEPT !.p = SetGiven(NewCorrelator(d).p, given)]
  IN  Calculated(c, f, w)

\* how many numbers a session has to keep: those of its data objects, of the data correlators and iterators refer to,
\* of results and of iterators.  (Objects that share data are counted as if each had its own: an upper bound.)
SumOver(f) == LET RECURSIVE go(_)
                  go(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + go(S \ {x})
              IN  go(DOMAIN f)
DataSize(d) == Len(d.t) * (2 + 2 * Len(d.rows) + Len(d.errs))
Size(st) == SumOver([h \in DOMAIN st.ds |-> DataSize(st.ds[h])])
          + SumOver([c \in DOMAIN st.co |-> DataSize(st.co[c].d) + Len(st.co[c].lags) * (1 + Len(st.co[c].d.rows))])
          + SumOver([i \in DOMAIN st.it |-> DataSize(st.it[i].d)])

-----------------------------------------------------------------------------
(* "ok", the refusal, or "either": unspecified, but the call returns or raises *)
Answer(st, a) ==
  CASE a.op = "data" -> ConstructOutcome(a.t, a.rows, a.errs)
    [] a.op = "std"  -> CalcOutcome(st.co[a.c].p, "natural", "fractional")
    [] a.op = "cfg"  -> CalcOutcome(st.co[a.c].p, a.f, a.w)
    [] a.op = "auto" -> CalcOutcome(SetGiven(Defaults(NormT(st.ds[a.h].t)), a.given), a.f, a.w)
    [] a.op = "find" /\ ~SameWidth(st, a) -> "ValueError"
    [] a.op \in {"select", "delta", "weigh", "find"} -> IF Orderly(st, a) THEN "ok" ELSE "either"
    [] a.op = "store" -> IF a.pos < 0 \/ ~SameWidth(st, a) THEN "refused" ELSE "ok"
    [] a.op = "trim" -> IF a.n < 0 THEN "refused" ELSE "ok"
    [] a.op = "misuse" -> "either"
    [] OTHER         -> "ok"

RECURSIVE Apply(_, _)
RECURSIVE ApplySeq(_, _)
ApplySeq(st, calls) == IF calls = <<>> THEN st ELSE ApplySeq(Apply(st, Head(calls)), Tail(calls))
Apply(st, a) ==
  IF a.op = "repeat" THEN ApplySeq(st, a.calls)       \* once or many times: SteadyState in MCSession
  ELSE IF Answer(st, a) = "either" /\ a.op # "misuse" THEN [st EXCEPT !.it[a.i].stage = "spoilt"]
  ELSE IF Answer(st, a) # "ok" THEN st
  ELSE
  CASE a.op = "data"  -> [st EXCEPT !.ds = Put(@, a.h, MkData(a.t, a.rows, a.errs))]
    [] a.op = "drop"  -> [st EXCEPT !.ds = Drop(@, a.h)]      \* correlators keep their data
    [] a.op = "dropc" -> [st EXCEPT !.co = Drop(@, a.c)]      \* iterators keep what they found
    [] a.op = "corr"  -> [st EXCEPT !.co = Put(@, a.c, NewCorrelator(st.ds[a.h]))]
    [] a.op = "set"   -> [st EXCEPT !.co[a.c].p = SetParam(@, a.name, a.v)]
    [] a.op = "std"   -> [st EXCEPT !.co[a.c] = Calculated(@, "natural", "fractional")]
    [] a.op = "cfg"   -> [st EXCEPT !.co[a.c] = Calculated(@, a.f, a.w)]
    [] a.op = "auto"  -> IF a.c = "" THEN st
                         ELSE [st EXCEPT !.co = Put(@, a.c, OneShot(st.ds[a.h], a.given, a.f, a.w))]
    [] a.op = "clear" -> [st EXCEPT !.co[a.c] = Trimmed(@, 0)]
    [] a.op = "trim"  -> [st EXCEPT !.co[a.c] = Trimmed(@, a.n)]
    [] a.op = "iter"  -> [st EXCEPT !.it = Put(@, a.i, NewIterator(a.k, a.c, st.co[a.c].d))]
    [] a.op = "setk"  -> [st EXCEPT !.it[a.i].k = a.k, !.it[a.i].stage = IF @ = "selected" THEN "spoilt" ELSE @]
    [] a.op = "select" -> [st EXCEPT !.it[a.i].stage = "selected", !.it[a.i].f = a.f, !.it[a.i].at = st.it[a.i].k]
    [] a.op = "delta" -> [st EXCEPT !.it[a.i].stage = "delta"]
    [] a.op = "weigh" -> [st EXCEPT !.it[a.i].stage = "weighted", !.it[a.i].w = a.w,
                                    !.it[a.i].a2 = st.co[a.c].p.a2]
    [] a.op = "find"  -> [st EXCEPT !.it[a.i].stage = "found"]
    [] a.op = "store" -> [st EXCEPT !.co[a.c] = Stored(@, a.pos, st.it[a.i].k, StoredCell(st.it[a.i], st.co[a.c]))]
    [] OTHER          -> st       \* reading, and the caller changing its own lists
=============================================================================
