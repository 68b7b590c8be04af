------------------------------ MODULE DataFile -----------------------------
(***************************************************************************)
(* Loading a data file.  A line is its fields in order; a field is a number *)
(* or something else: a word, NaN, or nothing between two separators.  A    *)
(* comment is a line whose first character is '#'.                          *)
(*   [comment |-> BOOLEAN, fields |-> sequence of fields]                   *)
(* Step reads one line; the state is what has been collected so far.        *)
(***************************************************************************)
EXTENDS Session

CONSTANT NumericField(_)     \* is this field a number (not a word, not NaN, not empty)?

FileStart == [t |-> <<>>, x |-> <<>>, e |-> <<>>, hasErr |-> FALSE]

IsSample(line) ==
  /\ ~line.comment
  /\ Len(line.fields) >= 2
  /\ NumericField(line.fields[1]) /\ NumericField(line.fields[2])

HasError(line) == Len(line.fields) >= 3 /\ NumericField(line.fields[3])

FileStep(s, line) ==
  IF ~IsSample(line) THEN s
  ELSE [t      |-> Append(s.t, line.fields[1]),
        x      |-> Append(s.x, line.fields[2]),
        e      |-> Append(s.e, IF HasError(line) THEN line.fields[3] ELSE NaN),
        hasErr |-> s.hasErr \/ HasError(line)]

RECURSIVE FileState(_, _)
FileState(lines, n) == IF n = 0 THEN FileStart ELSE FileStep(FileState(lines, n - 1), lines[n])

\* the construction call a file stands for
FileCall(h, lines) ==
  LET s == FileState(lines, Len(lines)) IN
  [op |-> "data", h |-> h, t |-> s.t, rows |-> <<s.x>>, errs |-> IF s.hasErr THEN <<s.e>> ELSE <<>>]
=============================================================================
