------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Trace validation: is what the code was recorded doing a behaviour of     *)
(* Session?  The file TRACES holds one JSON trace per line:                 *)
(*   {"id": .., "ops": [call, ...]}                                         *)
(* a call being a Session call with the numbers that really went in, plus   *)
(*   ret : "ok", the name of the exception raised, "crash", "hang", or      *)
(*         "skipped" (its object could not be made)                         *)
(*   obs : what the call returned, every number an exact decimal            *)
(*                                                                         *)
(* Each step consumes one call, takes the session to Apply(st, call), and   *)
(* evaluates every clause the specification imposes on the recorded answer. *)
(* A failed clause is printed with its trace and position and the run goes  *)
(* on, so the verdict is total: all clauses of all calls of all traces.     *)
(* AllConsumed makes sure that none was passed over.                        *)
(***************************************************************************)
EXTENDS Num, DataFile, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, st, prep, memo
vars == <<tid, l, st, prep, memo>>

TraceView == <<tid, l>>      \* a trace has one state per position

Ops == Traces[tid].ops

TraceInit == /\ tid \in 1..Len(Traces)
             /\ l = 1
             /\ st = InitialSession
             /\ prep = EmptyMap
             /\ memo = [tag |-> EmptyMap, cell |-> EmptyMap, sel |-> EmptyMap]

-----------------------------------------------------------------------------
(* Clauses *)

C(name, holds) == IF holds THEN {} ELSE {name}

SeqNear(a, b, tol)   == Len(a) = Len(b) /\ \A i \in 1..Len(a) : RNear(a[i], b[i], tol)
SeqWithin(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : RWithin(a[i], b[i], tol)
SeqSame(a, b)        == Len(a) = Len(b) /\ \A i \in 1..Len(a) : REq(a[i], b[i])
RowsSame(a, b)       == Len(a) = Len(b) /\ \A j \in 1..Len(a) : SeqSame(a[j], b[j])
RowsNear(a, b, tol)  == Len(a) = Len(b) /\ \A j \in 1..Len(a) : SeqNear(a[j], b[j], tol)

\* at length scale 0 there is no law of weights, so no value (but of a single sample, whose value is nan)
Lawless(cell, d) == REq(cell.a2, "0") /\ Len(d.t) > 1

Half(a) == IF RIsNum(a) THEN RMul(a, "0.5") ELSE a

Complete(row)    == \A i \in 1..Len(row) : row[i] # NaN
Constant(row)    == \A i \in 1..Len(row) : REq(row[i], row[1])

MeanOf(row) == RDiv(Total(row), RInt(Cardinality(Valid(row))))

SummaryFails(d, e) ==
  LET o == e.obs
      nt == NormT(d.t)
  IN  C("data.time",    SeqSame(o.time, d.t)) \cup
      C("data.values",  RowsSame(o.values, d.rows)) \cup
      C("data.errors",  RowsSame(o.errors, d.errs)) \cup
      C("data.reltime", SeqWithin(o.reltime, nt, e.ttol)) \cup
      C("data.mean",    SeqWithin(o.mean, [j \in 1..Len(d.rows) |-> MeanOf(d.rows[j])], e.vtol)) \cup
      C("data.centred",
        /\ Len(o.centred) = Len(d.rows)
        /\ \A j \in 1..Len(d.rows) :
             \A mean \in {MeanOf(d.rows[j])} :
                SeqWithin(o.centred[j], [i \in 1..Len(d.t) |-> RSub(d.rows[j][i], mean)], e.vtol)) \cup
      C("data.median",  RWithin(o.median, Half(Median2(nt)), e.ttol)) \cup
      C("data.last",    REq(o.last, LastOf(d.t))) \cup
      C("data.shape",   REq(o.n, RInt(Len(d.rows))) /\ REq(o.m, RInt(Len(d.t))))

ParamFails(c, e) ==
  LET o == e.obs IN
  C("param.max",   RWithin(o.max, c.p.max, e.ttol)) \cup
  C("param.min",   RWithin(o.min, c.p.min, e.ttol)) \cup
  C("param.res",   RNear(o.res, c.p.res, e.ttol)) \cup
  C("param.alpha", RWithin(o.alpha, Half(c.p.a2), e.ttol)) \cup
  C("param.shape", REq(o.n, RInt(Len(c.d.rows))) /\ REq(o.m, RInt(Len(c.d.t))))

\* Values are compared at the (0-based) positions in o.probe; o.counts are the lengths of all rows.
\* Two runs that must agree carry the same tag; the second is scaled by lagscale in time.
\* With e.memo, what was read for a cell once must be read for it ever after: a value is a function
\* of the data and the cell.
\* With e.witness, all weights are next to 1 and values show the pairing: they are compared up to the
\* common factor given by lag zero.
\* With e.near, times and lags hit boundaries up to rounding only: the lags are held to the grid within
\* e.ltol (where a lag within e.ltol of the end may be in or out), and values to the pairs recorded at
\* the very lag (op "pairs", which was held to the selection law within rounding).
CellKey(c, i) == <<c.d, c.cells[i]>>

\* x is min, min + res, ... up to max, all within tol
Stepped(x, p, tol) ==
  LET n == Len(x)
      at(i) == RAdd(p.min, RMul(RInt(i - 1), p.res))
  IN  /\ \A i \in 1..n : RWithin(x[i], at(i), tol)
      /\ n > 0 => RLeq(x[n], RAdd(p.max, tol))
      /\ RLeq(RSub(p.max, tol), at(n + 1))

\* ... apart from a zero put in before the first lag above zero
NearGrid(x, p, tol) ==
  \/ Stepped(x, p, tol)
  \/ \E z \in 1..Len(x) :
       /\ REq(x[z], "0") /\ z < Len(x)
       /\ Stepped(SubSeq(x, 1, z - 1) \o SubSeq(x, z + 1, Len(x)), p, tol)

\* C22: on even sampling (e.step apart) the ordinary autocorrelation, at every lag of a number of steps.
\* "exact": at no other lags, and all of it; "near": where a lag is a number of steps up to rounding, the pair that
\* ends on the last sample may have been shifted past the end
ClassicHolds(pd, e, o, i) ==
  LET k == o.lags[o.probe[i] + 1]
      n == RFloorDiv(RAdd(k, Half(e.step)), e.step)
      m == Len(pd.nt)
      on == IF e.classic = "exact" THEN REq(RMul(RInt(n), e.step), k) ELSE RWithin(RMul(RInt(n), e.step), k, e.ltol)
      fits(j, but) == RNear(o.values[j][i], RDiv(ClassicSum(pd.y[j], n, but), pd.ss[j]), e.ctol)
  IN  IF RLt(k, Half(e.step)) /\ ~REq(k, "0") THEN TRUE
      ELSE on =>
        \A j \in 1..Len(pd.y) :
          \/ fits(j, IF e.f = "fast" THEN 1 ELSE 0)
          \/ e.classic = "near" /\ fits(j, IF e.f = "fast" THEN 0 ELSE 1)

ResultFails(c, pd, e, mm) ==
  LET o     == e.obs
      n     == Len(o.lags)
      right == e.judge => Len(o.lags) = Len(c.lags)
      shape == /\ Len(o.counts) = Len(c.d.rows)
               /\ \A j \in 1..Len(o.counts) : o.counts[j] = n
               /\ Len(o.values) = Len(c.d.rows)
               /\ \A j \in 1..Len(o.values) : Len(o.values[j]) = Len(o.probe)
      vals  == TLCEval([i \in 1..Len(o.probe) |-> Values(pd, c.cells[o.probe[i] + 1])])
      full  == {j \in 1..Len(c.d.rows) : Complete(c.d.rows[j]) /\ ~Constant(c.d.rows[j])}
      known == {i \in 1..Len(o.probe) : c.cells[o.probe[i] + 1].f # "unknown"
                                             /\ (c.cells[o.probe[i] + 1].f = "none" \/ ~Lawless(c.cells[o.probe[i] + 1], c.d))}
      bad   == {i \in known :
                  ~ValuesNear([j \in 1..Len(c.d.rows) |-> o.values[j][i]], vals[i], pd, c.cells[o.probe[i] + 1],
                              e.ctol, e.rel)}
      zeros == {i \in 1..Len(o.probe) : REq(o.lags[o.probe[i] + 1], "0")}
  IN  C("lags.grid",  e.judge => SeqWithin(o.lags, c.lags, e.ltol)) \cup
      C("lags.count", shape) \cup
      C("lags.near", e.near => NearGrid(o.lags, c.p, e.ltol)) \cup
      C("value",
        (e.near /\ shape) =>
        \A i \in 1..Len(o.probe) :
          LET k == o.lags[o.probe[i] + 1] IN
          \A key \in {<<c.d, k, e.f>>} \cap DOMAIN mm.sel :
            \A v \in {ValuesOn(pd, [k |-> k, f |-> e.f, w |-> e.w, a2 |-> c.p.a2], mm.sel[key])} :
              \A j \in 1..Len(c.d.rows) : RNear(o.values[j][i], v[j], e.ctol)) \cup
      C("value.classic", (e.classic # "" /\ shape) => \A i \in 1..Len(o.probe) : ClassicHolds(pd, e, o, i)) \cup
      C("lags.order", e.calc => \A i \in 1..(n - 1) : RLt(o.lags[i], o.lags[i + 1])) \cup
      C("lags.zero",
        e.calc => LET z == Cardinality({i \in 1..n : REq(o.lags[i], "0")}) IN
                  IF \E i \in 1..n : RLt("0", o.lags[i]) THEN z = 1 ELSE z <= 1) \cup
      C("value.agree",
        (shape /\ e.tag # "" /\ e.tag \in DOMAIN mm.tag) =>
        LET m == mm.tag[e.tag] IN
        /\ SeqWithin(o.lags, [i \in 1..Len(m.lags) |-> RMul(m.lags[i], e.lagscale)], e.ltol)
        /\ IF e.row = 0 THEN RowsNear(o.values, m.values, e.ctol)
           ELSE SeqNear(o.values[1], m.values[e.row], e.ctol)) \cup
      (IF shape /\ right
       THEN C("value", e.judge => bad = {}) \cup
            C("value.missing",
              e.judge =>
              \A i \in known :
                 \A j \in 1..Len(c.d.rows) : RIsNum(vals[i][j]) <=> RIsNum(o.values[j][i])) \cup
            C("value.zerolag",
              (e.calc /\ e.f = "natural") =>
              \A i \in zeros : \A j \in full : RNear(o.values[j][i], "1", e.ctol)) \cup
            C("value.consistent",
              e.memo =>
              \A i \in known :
                 LET key == CellKey(c, o.probe[i] + 1) IN
                 key \in DOMAIN mm.cell =>
                   \A j \in 1..Len(c.d.rows) : RNear(o.values[j][i], mm.cell[key][j], "1E-12")) \cup
            C("value.pairing",
              (e.witness /\ e.judge) =>
              \A z \in zeros : \A i \in 1..Len(o.probe) : \A j \in 1..Len(c.d.rows) :
                 LET got == RMul(o.values[j][i], vals[z][j])
                     want == RMul(vals[i][j], o.values[j][z])
                 IN  RNear(got, want, e.ctol))
       ELSE {})

\* a weight is right to a relative error, small ones too (this side of underflow)
WeightNear(got, w, delta, a2, tol) ==
  LET want == TLCEval(Weight(w, delta, a2)) IN
  IF RLt(want, "1E-190") THEN RWithin(got, want, "1E-190")
  ELSE RIsNum(got) /\ RNear(RDiv(got, want), "1", tol)

\* the selection law where rounding of a shifted time may decide: x are 0-based indices
NearSel(f, nt, k, x, tol) ==
  LET n   == Len(x)
      m   == Len(nt)
      at(i)   == RAdd(nt[i], k)
      best(i) == RAbs(RSub(nt[Nearest(nt, at(i))], at(i)))
      close(i) == \/ RLt(LastOf(nt), at(i))          \* let in by rounding: the last one is nearest
                  \/ RLeq(RAbs(RSub(nt[x[i] + 1], at(i))), RAdd(best(i), tol))
  IN  /\ \A i \in 1..n : x[i] \in 0..(m - 1)
      /\ n <= m
      /\ n > 0 => RLeq(at(n), RAdd(LastOf(nt), tol))
      /\ IF f = "natural"
         THEN /\ n < m => RLeq(RSub(LastOf(nt), tol), at(n + 1))
              /\ \A i \in 1..n : close(i) /\ (RLt(LastOf(nt), at(i)) => REq(nt[x[i] + 1], LastOf(nt)))
         ELSE /\ \A i \in 2..n : x[i] = x[i - 1] + 1
              /\ n > 0 => close(1)
              /\ n < m => \/ RLeq(RSub(LastOf(nt), tol), at(n + 1))
                         \/ (n > 0 /\ x[n] = m - 1)

IterFails(s, e, i, c, nt, sel) ==
      CASE e.op = "pairs" /\ e.near ->
             LET good == NearSel(e.f, nt, e.k, e.obs.sel, e.ttol) IN
             C("pairs.sel", good) \cup
             C("pairs.delta", good => SeqWithin(e.obs.delta, Deltas(nt, e.k, [n \in 1..Len(e.obs.sel) |-> e.obs.sel[n] + 1]), e.ttol))
        [] e.op = "pairs" /\ ~e.near ->
             C("pairs.sel", Len(e.obs.sel) = Len(sel)
                            /\ \A n \in 1..Len(sel) : e.obs.sel[n] = sel[n] - 1) \cup
             C("pairs.delta", SeqWithin(e.obs.delta, Deltas(nt, e.k, sel), e.ttol))
        [] e.op = "select" ->
             C("pairs.sel", Len(e.obs.sel) = Len(sel)
                            /\ \A n \in 1..Len(sel) : e.obs.sel[n] = sel[n] - 1)
        [] e.op = "delta" -> C("pairs.delta", SeqWithin(e.obs.delta, Deltas(nt, i.at, sel), e.ttol))
        [] e.op = "weigh" ->
             LET dl == TLCEval(Deltas(nt, i.at, sel)) IN
             C("weights", IF REq(c.p.a2, "0") THEN Len(e.obs.weights) = Len(sel)     \* no law at length scale 0
                          ELSE /\ Len(e.obs.weights) = Len(sel)
                               /\ \A n \in 1..Len(sel) : WeightNear(e.obs.weights[n], e.w, dl[n], c.p.a2, e.wtol))
        [] e.op = "find" ->
             C("value", \A cell \in {[k |-> i.at, f |-> i.f, w |-> i.w, a2 |-> i.a2]} :
                          \A vals \in {Values(prep[e.c], cell)} :
                            Lawless(cell, s.co[e.c].d) \/ ValuesNear(e.obs.corr, vals, prep[e.c], cell, e.ctol, e.rel))

\* an iterator is a value of its own: what it shows is what its stages have left, whatever happened since
PeekFails(i, pd, e) ==
  LET o == e.obs
      past(stages) == i.stage \in stages
      n == Len(i.d.rows)
  IN  IF i.stage = "spoilt" THEN C("iter.k", REq(o.k, i.k)) ELSE
      C("iter.k", REq(o.k, i.k)) \cup
      C("iter.pairs",
        past({"selected", "delta", "weighted", "found"}) =>
        \A sel \in {TLCEval(Selection(i.f, pd.nt, i.at))} :
          Len(o.sel) = Len(sel) /\ \A x \in 1..Len(sel) : o.sel[x] = sel[x] - 1) \cup
      C("iter.weights",
        (past({"weighted", "found"}) /\ ~REq(i.a2, "0")) =>
        \A sel \in {TLCEval(Selection(i.f, pd.nt, i.at))} : \A dl \in {TLCEval(Deltas(pd.nt, i.at, sel))} :
          Len(o.weights) = Len(dl) /\ \A x \in 1..Len(dl) : WeightNear(o.weights[x], i.w, dl[x], i.a2, e.wtol)) \cup
      C("iter.value",
        IF i.stage = "found" /\ Lawless(IterCell(i), i.d) THEN TRUE
        ELSE IF i.stage # "found" THEN Len(o.corr) = n /\ \A j \in 1..n : REq(o.corr[j], "0")
        ELSE \A vals \in {Values(pd, IterCell(i))} : ValuesNear(o.corr, vals, pd, IterCell(i), e.ctol, e.rel))

\* mismatches e.d, in increasing order, and the weights e.obs.w they were given
WeightFails(c, e) ==
  LET d == e.d  w == e.obs.w IN
  IF Len(w) # Len(d) THEN {"weight.law"}
  ELSE C("weight.law",   \A i \in 1..Len(d) : WeightNear(w[i], e.w, d[i], c.p.a2, e.wtol)) \cup
       C("weight.one",   \A i \in 1..Len(d) : REq(d[i], "0") => REq(w[i], "1")) \cup
       C("weight.range", \A i \in 1..Len(d) :
            RLeq("0", w[i]) /\ RLeq(w[i], "1") /\ (RLeq(Ratio(d[i], c.p.a2), "20") => RLt("0", w[i]))) \cup
       C("weight.decay", \A i \in 1..(Len(d) - 1) : RLeq(w[i + 1], w[i]))

\* handles a call refers to
RECURSIVE Known(_, _)
Known(s, e) ==
  /\ (e.op = "repeat" => \A x \in 1..Len(e.calls) : Known(s, e.calls[x]))
  /\ (e.op \in {"summary", "drop", "corr", "auto"} => e.h \in DOMAIN s.ds)
  /\ (e.op \in {"params", "set", "std", "cfg", "read", "clear", "trim", "select", "delta", "weigh",
                "find", "store", "wfun", "views", "pairs", "iter", "dropc"} => e.c \in DOMAIN s.co)
  /\ (e.op \in {"select", "delta", "weigh", "find", "store", "setk", "peek"} => e.i \in DOMAIN s.it)

\* what the recorded call means to the session
RECURSIVE Call(_)
Call(e) ==
  CASE e.op = "file" /\ e.exists -> FileCall(e.h, e.lines)
    [] e.op = "repeat" -> [e EXCEPT !.calls = [n \in 1..Len(e.calls) |->
                             IF e.calls[n].op = "file" /\ ~e.calls[n].exists THEN [op |-> "misuse"] ELSE Call(e.calls[n])]]
    [] OTHER -> e

\* The same calls over and over: one round leaves the session as the next one does, so the memory in use may grow by
\* what the interpreter needs for itself, and no more.
Room == "262144"
RepeatFails(s, e) ==
  LET calls == Call(e).calls
      once  == ApplySeq(s, calls)
      more  == Size(ApplySeq(once, calls)) - Size(once)
  IN  C("memory.kept", RLeq(e.obs.growth, RAdd(Room, RInt(8 * e.rounds * more))))

Expected(s, e) ==
  IF e.op = "file" /\ ~e.exists THEN "BadDataFileReadException" ELSE Answer(s, Call(e))

\* constructions name their exception; elsewhere any exception is a refusal
OutcomeOk(s, e) ==
  LET want == Expected(s, e) IN
  CASE want = "either"           -> TRUE
    [] e.op \in {"data", "file"} -> e.ret = want
    [] want = "ok"               -> e.ret = "ok"
    [] OTHER                     -> e.ret \notin {"ok", "crash", "hang"}

Fails(s, e, mm) ==
  IF e.ret = "skipped" \/ ~Known(s, e) THEN {}
  ELSE IF e.ret \in {"crash", "hang"} THEN {e.ret, e.op \o ".outcome"}
  ELSE IF ~OutcomeOk(s, e) THEN {e.op \o ".outcome"}
  ELSE IF e.ret # "ok" \/ Expected(s, e) = "either" THEN {}
  ELSE CASE e.op = "summary" -> SummaryFails(s.ds[e.h], e)
         [] e.op = "params"  -> ParamFails(s.co[e.c], e)
         [] e.op = "read"    -> UNION {ResultFails(c, pd, e, mm) : c \in {s.co[e.c]}, pd \in {prep[e.c]}}
         [] e.op = "auto"    ->
              LET d == s.ds[e.h] IN
              \* (bound by a comprehension, which TLC evaluates once)
              UNION {ResultFails(c, pd, e, mm) : c \in {TLCEval(OneShot(d, e.given, e.f, e.w))}, pd \in {Prepared(d)}} \cup
              C("auto.shape", e.obs.shape = IF Len(d.rows) = 1 THEN "flat" ELSE "nested")
         [] e.op \in {"pairs", "select", "delta", "weigh", "find"} ->
              LET it == IF e.op = "pairs" THEN [at |-> e.k, f |-> e.f]
                        ELSE IF e.op = "select" THEN [at |-> s.it[e.i].k, f |-> e.f] ELSE s.it[e.i]
              IN  UNION {IterFails(s, e, i, s.co[e.c], nt, TLCEval(Selection(i.f, nt, i.at))) :
                           i \in {it}, nt \in {IF e.op = "weigh" THEN TLCEval(NormT(it.d.t)) ELSE prep[e.c].nt}}
         [] e.op = "peek"    -> UNION {PeekFails(i, pd, e) : i \in {s.it[e.i]}, pd \in {Prepared(s.it[e.i].d)}}
         [] e.op = "wfun"    -> WeightFails(s.co[e.c], e)
         [] e.op = "repeat"  -> RepeatFails(s, e)
         [] e.op = "views"   ->
              LET d == s.co[e.c].d IN
              C("views.time", SeqWithin(e.obs.reltime, NormT(d.t), e.ttol)) \cup
              C("views.values", RowsSame(e.obs.values, d.rows))
         [] OTHER            -> {}

-----------------------------------------------------------------------------
NextPrep(s, e) ==
  IF Expected(s, e) # "ok" THEN prep
  ELSE CASE e.op = "corr"               -> Put(prep, e.c, Prepared(s.ds[e.h]))
         [] e.op = "auto" /\ e.c # ""   -> Put(prep, e.c, Prepared(s.ds[e.h]))
         [] OTHER                       -> prep

NextMemo(s, e) ==
  IF e.op = "pairs" /\ e.ret = "ok" /\ e.near
  THEN [memo EXCEPT !.sel = Put(@, <<s.co[e.c].d, e.k, e.f>>, [n \in 1..Len(e.obs.sel) |-> e.obs.sel[n] + 1])]
  ELSE IF ~(e.op \in {"read", "auto"} /\ e.ret = "ok" /\ Expected(s, e) = "ok") THEN memo
  ELSE
  LET o == e.obs
      c == IF e.op = "read" THEN s.co[e.c] ELSE OneShot(s.ds[e.h], e.given, e.f, e.w)
      new == IF ~e.memo \/ Len(o.lags) # Len(c.lags) THEN {}
             ELSE {i \in 1..Len(o.probe) : CellKey(c, o.probe[i] + 1) \notin DOMAIN memo.cell
                                                       /\ c.cells[o.probe[i] + 1].f # "unknown"}
      keys == {CellKey(c, o.probe[i] + 1) : i \in new}
  IN  [sel  |-> memo.sel,
       tag  |-> IF e.tag # "" /\ e.tag \notin DOMAIN memo.tag
                THEN Put(memo.tag, e.tag, [lags |-> o.lags, values |-> o.values]) ELSE memo.tag,
       cell |-> IF new = {} THEN memo.cell
                ELSE [x \in (DOMAIN memo.cell) \cup keys |->
                        IF x \in DOMAIN memo.cell THEN memo.cell[x]
                        ELSE LET i == CHOOSE i \in new : CellKey(c, o.probe[i] + 1) = x
                             IN  [j \in 1..Len(o.values) |-> o.values[j][i]]]]

TraceStep ==
  /\ l <= Len(Ops)
  /\ LET e == Ops[l]
         f == Fails(st, e, memo)
     IN  /\ IF f = {} THEN TRUE ELSE PrintT(<<"FAIL", Traces[tid].id, l, e.op, f>>)
         /\ l' = l + 1
         /\ IF e.ret = "skipped" \/ ~Known(st, e)
            THEN UNCHANGED <<st, prep, memo>>
            ELSE /\ st'   = Apply(st, Call(e))
                 /\ prep' = NextPrep(st, e)
                 /\ memo' = NextMemo(st, e)
  /\ UNCHANGED tid

TraceSpec == TraceInit /\ [][TraceStep]_vars

TotalCalls == LET RECURSIVE sum(_) sum(n) == IF n = 0 THEN 0 ELSE sum(n - 1) + Len(Traces[n].ops)
              IN  sum(Len(Traces))

\* one state per call and one initial state per trace: every call of every trace was judged
AllConsumed ==
  /\ PrintT(<<"CONSUMED", TLCGet("distinct"), Len(Traces), TotalCalls>>)
  /\ TLCGet("distinct") = Len(Traces) + TotalCalls
=============================================================================
