------------------------------ MODULE MCSession -----------------------------
(***************************************************************************)
(* All histories of calls up to a depth, over small data, in profiles that  *)
(* each concentrate on one part of the interface.  Every transition is      *)
(* printed as the call sequence that leads to it (hist, hidden by the VIEW),*)
(* to be replayed on the code.                                              *)
(*                                                                         *)
(* A correlator's storage is carried along a second time, shaped like the   *)
(* code (Storage.tla), and must always agree.                               *)
(***************************************************************************)
EXTENDS Ints, Storage

CONSTANTS Profile, Depth
VARIABLES st, impl, hist, ret
vars == <<st, impl, hist, ret>>
View == <<st, impl>>

Data == [ one |-> [t |-> <<0, 1, 3>>,    rows |-> << <<1, 2, 4>> >>,                   errs |-> <<>>],
          two |-> [t |-> <<0, 2, 3, 4>>, rows |-> << <<1, 0, 2, 1>>, <<3, 1, 0, 5>> >>, errs |-> <<>>] ]
MkCall(h, x) == [op |-> "data", h |-> h, t |-> Data[x].t, rows |-> Data[x].rows, errs |-> <<>>]
NoneGiven == [max_lag |-> <<>>, min_lag |-> <<>>, lag_resolution |-> <<>>, alpha |-> <<>>]

SetCalls(c) == {[op |-> "set", c |-> c, name |-> "max_lag", v |-> v] : v \in {1, 0}}
          \cup {[op |-> "set", c |-> c, name |-> "min_lag", v |-> v] : v \in {0, 1}}
          \cup {[op |-> "set", c |-> c, name |-> "lag_resolution", v |-> v] : v \in {0, 2}}
          \cup {[op |-> "set", c |-> c, name |-> "alpha", v |-> v] : v \in {1, 3}}
Std(c)       == [op |-> "std", c |-> c]
Cfg(c, f, w) == [op |-> "cfg", c |-> c, f |-> f, w |-> w]
Auto(h, g, f, w, c) == [op |-> "auto", h |-> h, given |-> g, f |-> f, w |-> w, c |-> c]

IterCalls(c, ks, poss) ==
       {[op |-> "iter", i |-> "x", k |-> k, c |-> c] : k \in ks}
  \cup (IF "x" \in DOMAIN st.it /\ st.it["x"].stage \in {"new", "found"} /\ st.it["x"].k # 2
        THEN {[op |-> "setk", i |-> "x", k |-> 2]} ELSE {})
  \cup (IF "x" \notin DOMAIN st.it THEN {}
        ELSE LET i == st.it["x"] IN
             IF i.c # c THEN {}
             ELSE CASE i.stage = "new"      -> {[op |-> "select", i |-> "x", c |-> c, f |-> f] : f \in {"natural", "fast"}}
                    [] i.stage = "selected" -> {[op |-> "delta", i |-> "x", c |-> c]}
                    [] i.stage = "delta"    -> {[op |-> "weigh", i |-> "x", c |-> c, w |-> w] : w \in {"gaussian"}}
                    [] i.stage = "weighted" -> {[op |-> "find", i |-> "x", c |-> c]}
                    [] i.stage = "found"    -> {}
             \cup {[op |-> "store", i |-> "x", c |-> c, pos |-> n] : n \in IF i.stage \in {"new", "found"} THEN poss ELSE {}})

Calls ==
  CASE Profile = "store" ->
         IterCalls("a", {0, 1}, {0, 1, 3})
         \cup {[op |-> "trim", c |-> "a", n |-> n] : n \in {0, 1, 4}}
         \cup {[op |-> "clear", c |-> "a"], Std("a")}
    [] Profile = "param" ->
         SetCalls("a") \cup {Std("a"), Cfg("a", "fast", "gaussian"), Cfg("a", "natural", "nonesuch")}
    [] Profile = "misuse" ->      \* "a" has two rows, "b" one, "c" the data of "b"
         {[op |-> "iter", i |-> "x", k |-> 1, c |-> c] : c \in {"a", "b"}}
         \cup (IF "x" \notin DOMAIN st.it THEN {} ELSE
                 UNION {{[op |-> "select", i |-> "x", c |-> c, f |-> "natural"], [op |-> "select", i |-> "x", c |-> c, f |-> "fast"],
                         [op |-> "delta", i |-> "x", c |-> c], [op |-> "weigh", i |-> "x", c |-> c, w |-> "fractional"],
                         [op |-> "find", i |-> "x", c |-> c], [op |-> "store", i |-> "x", c |-> c, pos |-> 1],
                         [op |-> "store", i |-> "x", c |-> c, pos |-> -1]} : c \in {"a", "b"}})
         \cup {[op |-> "trim", c |-> "a", n |-> -1], Std("b")}
    [] Profile = "life" ->
         {MkCall(h, x) : h \in {"d"}, x \in {"one", "two"}}
         \cup {[op |-> "drop", h |-> h] : h \in DOMAIN st.ds}
         \cup {[op |-> "corr", c |-> c, h |-> h] : c \in {"a", "b"}, h \in DOMAIN st.ds}
         \cup {[op |-> "dropc", c |-> c] : c \in DOMAIN st.co}
         \cup UNION {{Std(c), Cfg(c, "natural", "fractional_squared"),
                      [op |-> "set", c |-> c, name |-> "max_lag", v |-> 1]} : c \in DOMAIN st.co}
         \cup {Auto(h, NoneGiven, "fast", "fractional", c) : h \in DOMAIN st.ds, c \in {"", "b"}}

Prefix == CASE Profile = "life" -> <<>>
            [] Profile = "misuse" -> <<MkCall("d", "two"), MkCall("e", "one"), [op |-> "corr", c |-> "a", h |-> "d"],
                                       [op |-> "corr", c |-> "b", h |-> "e"]>>
            [] OTHER -> <<MkCall("d", "two"), [op |-> "corr", c |-> "a", h |-> "d"]>>

RECURSIVE ApplyAll(_, _)
ApplyAll(s, calls) == IF calls = <<>> THEN s ELSE ApplyAll(Apply(s, Head(calls)), Tail(calls))

CalcStore(old, c) ==     \* what the loop of Machine leaves: each lag stored in turn, then trimmed
  LET n == Len(c.lags)
      RECURSIVE go(_, _)
      go(s, i) == IF i > n THEN Cleaned(s, n, Zero, ZeroCell)
                  ELSE go(Added(s, i - 1, c.lags[i], [j \in 1..Len(s.rows) |-> c.cells[i]], Zero, ZeroCell), i + 1)
  IN  go(old, 1)

ImplNext(a) ==
  CASE Answer(st, a) # "ok" -> impl
    [] a.op = "dropc" -> Drop(impl, a.c)
    [] a.op = "corr"  -> Put(impl, a.c, EmptyStore(Len(st.ds[a.h].rows)))
    [] a.op = "auto"  -> IF a.c = "" THEN impl
                         ELSE Put(impl, a.c, CalcStore(EmptyStore(Len(st.ds[a.h].rows)), Apply(st, a).co[a.c]))
    [] a.op \in {"std", "cfg"} -> [impl EXCEPT ![a.c] = CalcStore(@, Apply(st, a).co[a.c])]
    [] a.op = "clear" -> [impl EXCEPT ![a.c] = EmptyStore(Len(@.rows))]
    [] a.op = "trim"  -> [impl EXCEPT ![a.c] = Cleaned(@, a.n, Zero, ZeroCell)]
    [] a.op = "store" -> [impl EXCEPT ![a.c] = Added(@, a.pos, st.it[a.i].k,
                                   [j \in 1..Len(@.rows) |-> StoredCell(st.it[a.i], st.co[a.c])], Zero, ZeroCell)]
    [] OTHER -> impl

Init == /\ st = ApplyAll(InitialSession, Prefix)
        /\ hist = Prefix /\ ret = "ok"
        /\ impl = [c \in DOMAIN st.co |-> EmptyStore(Len(st.co[c].d.rows))]
Step(a) == /\ ret' = Answer(st, a) /\ st' = Apply(st, a) /\ impl' = ImplNext(a) /\ hist' = Append(hist, a)
Next == Len(hist) < Depth + Len(Prefix) /\ \E a \in Calls : Step(a)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* C17
StorageAgrees ==
  /\ DOMAIN impl = DOMAIN st.co
  /\ \A c \in DOMAIN impl :
       /\ impl[c].ts = st.co[c].lags
       /\ \A j \in 1..Len(impl[c].rows) : impl[c].rows[j] = st.co[c].cells
       /\ Aligned(impl[c])

LastCall == hist'[Len(hist')]
Named(a) == IF "c" \in DOMAIN a THEN {a.c} ELSE {}
\* C14: a call changes the correlator it names, if it accepts, and nothing else
NonInterference == [][
  LET a == LastCall IN
  /\ \A c \in (DOMAIN st.co) \ Named(a) : c \in DOMAIN st'.co /\ st'.co[c] = st.co[c]
  /\ \A i \in (DOMAIN st.it) : ("i" \in DOMAIN a /\ a.i = i /\ a.op # "store") \/ (i \in DOMAIN st'.it /\ st'.it[i] = st.it[i])
  /\ a.op \notin {"data", "drop"} => st'.ds = st.ds
  /\ \A h \in (DOMAIN st.ds \cap DOMAIN st'.ds) : (a.op = "data" /\ a.h = h) \/ st'.ds[h] = st.ds[h]
  /\ ret' \notin {"ok", "either"} => st' = st
  /\ ret' = "either" => [st' EXCEPT !.it = st.it] = st
  /\ a.op \in {"std", "cfg", "clear", "trim", "store"} => st'.co[a.c].p = st.co[a.c].p /\ st'.co[a.c].d = st.co[a.c].d
  ]_vars
\* C14: a calculation leaves what it would leave on a fresh correlator with the same parameters
LikeFresh == [][
  LET a == LastCall IN
  (a.op \in {"std", "cfg"} /\ ret' = "ok") =>
    LET c == st'.co[a.c]
        fresh == [NewCorrelator(c.d) EXCEPT !.p = c.p]
    IN  c = IF a.op = "std" THEN Calculated(fresh, "natural", "fractional") ELSE Calculated(fresh, a.f, a.w)
  ]_vars
\* C15: what is computed for a correlator needs no handle on its data
DataKept == [][\A c \in DOMAIN st.co \cap DOMAIN st'.co :
                 (Named(LastCall) = {c} /\ LastCall.op \in {"corr", "auto"}) \/ st'.co[c].d = st.co[c].d]_vars

\* an iterator used out of order never counts as found again
StaysSpoilt == [][\A i \in DOMAIN st.it \cap DOMAIN st'.it :
                    st.it[i].stage = "spoilt" => st'.it[i].stage = "spoilt" \/ LastCall.op = "iter"]_vars

\* C23: a call made again right away changes nothing more and keeps nothing more (stages of an iterator apart, which
\* are not to be called again)
SteadyState == [][
  (ret' = "ok" /\ LastCall.op \notin {"select", "delta", "weigh", "find"} /\ Answer(st', LastCall) = "ok") =>
    /\ Apply(st', LastCall) = st'
    /\ Size(Apply(st', LastCall)) = Size(st')
  ]_vars

Generated == Emit([profile |-> Profile, calls |-> hist'])
=============================================================================
