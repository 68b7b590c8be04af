------------------------------- MODULE MCSteps -------------------------------
(***************************************************************************)
(* Why the stepping from lag to lag ends.  The lag loop adds the resolution *)
(* to the lag in floating point, where a small step can be lost.  Here the  *)
(* loop runs on every number of a small floating-point format (P bits of    *)
(* precision, exponents 0..E, gradual underflow, rounding to nearest with   *)
(* ties to even, overflow to infinity), from every start, with every step   *)
(* and limit, infinite ones included.                                       *)
(*                                                                         *)
(* What lets a calculation in is the guard of the code: a positive step,    *)
(* half of which still moves both limits.  Checked: with the guard the loop *)
(* gets on at every step, so it ends; without, it can stand still           *)
(* (NeedsGuard).  And the guard turns away only ranges whose limits are     *)
(* beyond the precision of the step.                                        *)
(*                                                                         *)
(* Numbers are integers in halves of the smallest unit, so that half a step *)
(* can be written down before it is rounded.                                *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS P, E
VARIABLES lo, hi, res, k, pc
vars == <<lo, hi, res, k, pc>>

Pow(n) == 2 ^ n
\* non-negative numbers of the format, in whole units
Mags == {m * Pow(e) : m \in 0..(Pow(P) - 1), e \in 0..E}
Max  == (Pow(P) - 1) * Pow(E)
Inf  == 4 * Max + 3              \* stands for infinity: above every sum of two numbers
Nums == {2 * m : m \in Mags} \cup {-2 * m : m \in Mags}       \* in half units
All  == Nums \cup {2 * Inf, -2 * Inf}
IsInf(x) == x = 2 * Inf \/ x = -2 * Inf

Abs(x) == IF x < 0 THEN -x ELSE x
\* spacing of the format (in half units) around a non-negative x of half units
RECURSIVE Spacing(_, _)
Spacing(x, e) == IF e >= E \/ x < 2 * Pow(P + e) THEN 2 * Pow(e) ELSE Spacing(x, e + 1)
RoundMag(x) ==
  LET s == Spacing(x, 0)
      q == x \div s
      r == x % s
      up == 2 * r > s \/ (2 * r = s /\ q % 2 = 1)
      y == (IF up THEN q + 1 ELSE q) * s
  IN  IF y > 2 * Max THEN 2 * Inf ELSE y
Rnd(x) == IF x < 0 THEN -RoundMag(-x) ELSE RoundMag(x)

Plus(a, b) == IF IsInf(a) THEN a ELSE IF IsInf(b) THEN b ELSE Rnd(a + b)       \* (inf - inf does not occur: steps are positive)
HalfOf(a)  == IF IsInf(a) THEN a ELSE Rnd(a \div 2)

Moves(x, step) == Plus(x, step) > x
Guard == res > 0 /\ (lo <= hi => Moves(lo, HalfOf(res)) /\ Moves(hi, HalfOf(res)))

\* a positive step can be lost, and one that moves both limits can still be lost between them
ASSUME NeedsGuard ==
  \E a \in Nums : \E s \in {x \in Nums : x > 0} :
    \E b \in {x \in Nums : x > a /\ x <= a + 3 * s} : Moves(a, s) /\ Moves(b, s) /\ ~Moves(Plus(a, s), s) /\ Plus(a, s) <= b

Init == /\ lo \in All /\ hi \in All /\ res \in {x \in All : x > 0}
        /\ k = lo
        /\ pc = IF Guard THEN "loop" ELSE "refused"
\* one round of the loop, cut short to the question whether it gets on
Step == /\ pc = "loop" /\ k <= hi
        /\ k' = Plus(k, res)
        /\ UNCHANGED <<lo, hi, res, pc>>
End  == /\ pc = "loop" /\ k > hi /\ pc' = "done" /\ UNCHANGED <<lo, hi, res, k>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
GetsOn   == (pc = "loop" /\ k <= hi) => Plus(k, res) > k
Ends     == <>(pc \in {"done", "refused"})
\* what is turned away is a range at the limit of precision, or infinite
RefusesOnlyTheEndless ==
  (pc = "refused" /\ lo <= hi /\ ~IsInf(lo) /\ ~IsInf(hi)) =>
     \/ Abs(lo) * 4 >= res * Pow(P) \/ Abs(hi) * 4 >= res * Pow(P)
     \/ res <= 2                                                     \* half of the smallest number is none
=============================================================================
