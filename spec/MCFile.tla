-------------------------------- MODULE MCFile ------------------------------
(***************************************************************************)
(* Every file of a few lines of every kind (C13): reading line by line      *)
(* gives what the whole file means.                                         *)
(***************************************************************************)
EXTENDS Ints

CONSTANTS MaxLines
VARIABLES lines, s
vars == <<lines, s>>

\* kinds of line; numbers tell their line and column apart when replayed
Kinds == {"two", "three", "more", "errword", "errnan", "errempty", "valword", "valnan", "timeword",
          "one", "blank", "head", "comment", "commentdata", "emptyfirst", "emptysecond"}
Line(kind, n) ==
  LET t == 100 + n  x == 200 + n  e == 300 + n IN
  CASE kind = "two"         -> [comment |-> FALSE, fields |-> <<t, x>>]
    [] kind = "three"       -> [comment |-> FALSE, fields |-> <<t, x, e>>]
    [] kind = "more"        -> [comment |-> FALSE, fields |-> <<t, x, e, 900>>]
    [] kind = "errword"     -> [comment |-> FALSE, fields |-> <<t, x, Word>>]
    [] kind = "errnan"      -> [comment |-> FALSE, fields |-> <<t, x, NanWord>>]
    [] kind = "errempty"    -> [comment |-> FALSE, fields |-> <<t, x, Empty, e>>]
    [] kind = "valword"     -> [comment |-> FALSE, fields |-> <<t, Word, e>>]
    [] kind = "valnan"      -> [comment |-> FALSE, fields |-> <<t, NanWord, e>>]
    [] kind = "timeword"    -> [comment |-> FALSE, fields |-> <<Word, x, e>>]
    [] kind = "one"         -> [comment |-> FALSE, fields |-> <<t>>]
    [] kind = "blank"       -> [comment |-> FALSE, fields |-> <<>>]
    [] kind = "head"        -> [comment |-> FALSE, fields |-> <<Word, Word>>]
    [] kind = "comment"     -> [comment |-> TRUE,  fields |-> <<Word>>]
    [] kind = "commentdata" -> [comment |-> TRUE,  fields |-> <<t, x, e>>]
    [] kind = "emptyfirst"  -> [comment |-> FALSE, fields |-> <<Empty, x, e>>]
    [] kind = "emptysecond" -> [comment |-> FALSE, fields |-> <<t, Empty, e>>]

Init == lines = <<>> /\ s = FileStart
Next == /\ Len(lines) < MaxLines
        /\ \E kind \in Kinds : lines' = Append(lines, kind) /\ s' = FileStep(s, Line(kind, Len(lines) + 1))
Spec == Init /\ [][Next]_vars

Whole == [n \in 1..Len(lines) |-> Line(lines[n], n)]
SampleKinds == {"two", "three", "more", "errword", "errnan", "errempty"}
ErrorKinds  == {"three", "more"}
Samples == SelectSeq([n \in 1..Len(lines) |-> n], LAMBDA n : lines[n] \in SampleKinds)

OneSamplePerDataLine ==
  /\ s = FileState(Whole, Len(lines))
  /\ s.t = [i \in 1..Len(Samples) |-> 100 + Samples[i]]
  /\ s.x = [i \in 1..Len(Samples) |-> 200 + Samples[i]]
ErrorsAligned ==
  /\ Len(s.e) = Len(s.t)
  /\ \A i \in 1..Len(Samples) :
       s.e[i] = IF lines[Samples[i]] \in ErrorKinds THEN 300 + Samples[i] ELSE NaN
  /\ s.hasErr <=> \E n \in 1..Len(lines) : lines[n] \in ErrorKinds
\* the object made is one that could have been made directly
Direct ==
  LET c == FileCall("h", Whole) IN
  ConstructOutcome(c.t, c.rows, c.errs) = IF Samples = <<>> THEN "EmptyDataStructureException" ELSE "ok"

Generated == Emit([kinds |-> lines])
=============================================================================
