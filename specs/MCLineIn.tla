------------------------------ MODULE MCLineIn ------------------------------
EXTENDS LineIn
CONSTANTS Alphabet, MaxLen
VARIABLE got
vars == <<lvars, got>>
Texts == UNION {[1..k -> Alphabet] : k \in 0..MaxLen}
Init == text \in Texts /\ pos = 0 /\ got = <<>>
Next == /\ pos < Len(text) /\ \E b \in {Line(text, pos)} : NextLine(b) /\ got' = got \o <<b>>
(* Progress, every byte is part of exactly one line or of one line ending.     *)
Progress == [][pos' > pos]_vars
NoEnds == \A k \in DOMAIN got : \A j \in DOMAIN got[k] : got[k][j] \notin {0, 10, 13}
RECURSIVE NonEnds(_)
NonEnds(s) == IF s = <<>> THEN <<>> ELSE (IF Head(s) \in {10, 13} THEN <<>> ELSE <<Head(s)>>) \o NonEnds(Tail(s))
RECURSIVE Concat(_)
Concat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Concat(Tail(s))
Kept == Concat(got) = Clean(NonEnds(SubSeq(text, 1, pos)))
(* The number of lines: the endings, plus an unterminated last line. *)
Ends(s) == {k \in DOMAIN s : s[k] = 13 \/ (s[k] = 10 /\ ~(k > 1 /\ s[k - 1] = 13))}
Count == pos = Len(text) => Len(got) = Cardinality(Ends(text)) + (IF text # <<>> /\ text[Len(text)] \notin {10, 13} THEN 1 ELSE 0)
Whole == pos = Len(text) => got = AllLines(text, 0)
(* A text written with any mixture of endings reads back as the same lines. *)
Spec == Init /\ [][Next]_vars
=============================================================================
