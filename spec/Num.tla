-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* The kernel over decimals, and the numbers the symbols of a session stand *)
(* for: the weight functions and the value of a cell.                       *)
(* (TLCEval only makes TLC compute a value once instead of at each use.)    *)
(***************************************************************************)
EXTENDS Rat, Session

\* doubles have 53 bits
RLost(k, res) == RLt("9007199254740992", RDiv(RAbs(k), res)) \/ RIsNum(k) = FALSE

Ratio(delta, a2) == RDiv(RMul("2", delta), a2)

\* law of each weight function, in the ratio of mismatch to length scale
WeightLaw(w, r) ==
  CASE w = "fractional"         -> RDiv("1", RAdd("1", r))
    [] w = "fractional_squared" -> RDiv("1", RAdd("1", RMul(r, r)))
    [] w = "gaussian"           -> RExp(RMul("-0.5", RMul(r, r)))

Weight(w, delta, a2) == WeightLaw(w, Ratio(delta, a2))

\* a data object with what every value needs computed once
Prepared(d) ==
  LET y == TLCEval([j \in 1..Len(d.rows) |-> Centred(d.rows[j])])
  IN  TLCEval([nt |-> NormT(d.t), y |-> y, ss |-> [j \in 1..Len(y) |-> SumSquares(y[j])]])

\* the values a cell stands for, one per dataset, given which observation each sample is paired with
ValuesOn(pd, cell, sel) ==
  LET dl  == Deltas(pd.nt, cell.k, sel)
      ws  == TLCEval([i \in 1..Len(sel) |-> Weight(cell.w, dl[i], cell.a2)])
      val(j) == LET pr == Products(pd.y[j], sel)
                IN  RDiv(RSum([i \in 1..Len(sel) |-> RMul(ws[i], pr[i])]), pd.ss[j])
  IN  TLCEval([j \in 1..Len(pd.y) |-> val(j)])

\* how large the greatest weight of a cell is, taken as 1 where a value is not small anyway
Greatest(s) == s[CHOOSE i \in 1..Len(s) : \A j \in 1..Len(s) : RLeq(s[j], s[i])]
Scale(pd, cell, vals) ==
  IF cell.f \in {"none", "unknown"} \/ ~RLt("0", cell.a2) \/ (\E j \in 1..Len(vals) : RLt("0.001", RAbs(vals[j]))) THEN "1"
  ELSE LET sel == TLCEval(Selection(cell.f, pd.nt, cell.k))
           dl  == TLCEval(Deltas(pd.nt, cell.k, sel))
       IN  IF sel = <<>> THEN "1" ELSE Greatest(TLCEval([i \in 1..Len(sel) |-> RAbs(Weight(cell.w, dl[i], cell.a2))]))

\* the values of a cell as recorded: within tol, or (rel) within tol of its greatest weight, short of underflow
ValuesNear(got, vals, pd, cell, tol, rel) ==
  /\ Len(got) = Len(vals)
  /\ \A j \in 1..Len(vals) : RNear(got[j], vals[j], tol)
  /\ rel =>
       \A room \in {TLCEval(RAdd(RMul(tol, Scale(pd, cell, vals)), "1E-190"))} :
         \A j \in 1..Len(vals) : RWithin(got[j], vals[j], RAdd(room, RMul(tol, IF RIsNum(vals[j]) THEN RAbs(vals[j]) ELSE "0")))

Values(pd, cell) ==
  IF cell.f \in {"none", "unknown"} THEN [j \in 1..Len(pd.y) |-> "0"]
  ELSE ValuesOn(pd, cell, TLCEval(Selection(cell.f, pd.nt, cell.k)))
=============================================================================
