------------------------------- MODULE LineIn -------------------------------
(* A text file read line by line: lines end with LF, CR LF or CR (13, 10) or   *)
(* at the end of the file; zero bytes inside a line are turned into spaces.    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES text, pos
lvars == <<text, pos>>
LInit == text = <<>> /\ pos = 0
OpenText(b) == text' = b /\ pos' = 0

EndAt(s, p) == LET E == {k \in (p + 1)..Len(s) : s[k] \in {10, 13}}
               IN IF E = {} THEN Len(s) + 1 ELSE CHOOSE k \in E : \A j \in E : k <= j
Clean(b) == [k \in DOMAIN b |-> IF b[k] = 0 THEN 32 ELSE b[k]]
Line(s, p) == Clean(SubSeq(s, p + 1, EndAt(s, p) - 1))
After(s, p) == LET e == EndAt(s, p)
               IN IF e > Len(s) THEN Len(s)
                  ELSE IF s[e] = 13 /\ e < Len(s) /\ s[e + 1] = 10 THEN e + 1 ELSE e
NextLine(b) == /\ b = Line(text, pos) /\ pos' = After(text, pos) /\ UNCHANGED text

(* The position is the one of the file: lines and other accesses may be mixed. *)
MoveTo(p) == p \in 0..Len(text) /\ pos' = p /\ UNCHANGED text
Skip(n, b) == LET e == IF pos + n > Len(text) THEN Len(text) ELSE pos + n
              IN b = SubSeq(text, pos + 1, e) /\ pos' = e /\ UNCHANGED text

(* Everything the reader gets, for a whole text. *)
RECURSIVE AllLines(_, _)
AllLines(s, p) == IF p >= Len(s) THEN <<>> ELSE <<Line(s, p)>> \o AllLines(s, After(s, p))
=============================================================================
