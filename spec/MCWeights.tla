------------------------------ MODULE MCWeights -----------------------------
(***************************************************************************)
(* The three weight laws over a grid of mismatches and length scales, in    *)
(* exact decimals: 1 at no mismatch, strictly between 0 and 1 otherwise,    *)
(* strictly decreasing, and a function of the ratio only (C04).             *)
(***************************************************************************)
EXTENDS Num, Json, IOUtils

CONSTANTS MaxR
VARIABLES w, d, a, x
vars == <<w, d, a, x>>

Scales == {"0.0001", "0.5", "1", "3", "7", "1000000"}
Init == w \in WeightNames /\ d = 0 /\ a \in Scales /\ x = 0
\* mismatch d/8 length scales
Next == d < MaxR /\ d' = d + 1 /\ UNCHANGED <<w, a, x>>
Spec == Init /\ [][Next]_vars

Delta(n) == RMul(RDiv(RInt(n), "8"), a)
W(n)     == Weight(w, Delta(n), RMul("2", a))
One      == d = 0 => REq(W(d), "1")
Between  == d > 0 => RLt("0", W(d)) /\ RLt(W(d), "1")
Decays   == d > 0 => RLt(W(d), W(d - 1))
RatioOnly == \A c \in {"0.001", "2", "1000"} :
  RNear(Weight(w, RMul(c, Delta(d)), RMul(c, RMul("2", a))), W(d), "1E-40")
\* fixed points of the three laws
Known == d = 8 => CASE w = "fractional"         -> REq(W(8), "0.5")
                    [] w = "fractional_squared" -> REq(W(8), "0.5")
                    [] w = "gaussian"           -> RWithin(W(8), "0.60653065971263342360379953499118", "1E-30")
INumericR(f) == RIsNum(f)
=============================================================================
