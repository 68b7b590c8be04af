-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact arithmetic on numbers of any size, for a model checker whose own   *)
(* integers stop at 2^31.  A number is a string: a plain decimal            *)
(* ("-0.25"), or one of "nan", "inf", "-inf".  The operators are computed   *)
(* by Rat.java (same directory), which is arithmetic only: no property is   *)
(* decided there.  Sums, differences and products are exact; quotients and  *)
(* exponentials are rounded to 60 significant digits.                       *)
(*                                                                         *)
(* "bad:..." strings are what a trace carries where the implementation      *)
(* returned something that is not a number; they are equal to nothing.      *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

RInt(n)       == "override"    \* the integer n
RAdd(a, b)    == "override"    \* a + b
RSub(a, b)    == "override"    \* a - b
RMul(a, b)    == "override"    \* a * b
RDiv(a, b)    == "override"    \* a / b; "nan" when b is 0
RExp(a)       == "override"    \* e^a
RAbs(a)       == "override"    \* |a|
RLeq(a, b)    == TRUE         \* a <= b on numbers; FALSE if either is not a number
RLt(a, b)     == TRUE         \* a < b
REq(a, b)     == TRUE         \* equal numbers (or both nan, both the same infinity)
RSum(s)       == "override"    \* sum of a sequence of numbers
RFloorDiv(a, b) == 0          \* the integer floor(a / b); b > 0
RWithin(a, b, tol) == TRUE    \* |a - b| <= tol, or both nan, or the same infinity
RIsNum(a)     == TRUE         \* a finite number
\* |a - b| <= tol * max(1, |b|), or both nan, or the same infinity
RNear(a, b, tol) == TRUE
=============================================================================
