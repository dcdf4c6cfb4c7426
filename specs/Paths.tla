-------------------------------- MODULE Paths --------------------------------
(* Path names as byte sequences.  47 is '/', 92 is '\', 46 is '.'.             *)
EXTENDS Utf8, SequencesExt
Bad == (0..31) \cup {127, 42, 63, 34, 60, 62, 124}
Slash(s) == [k \in DOMAIN s |-> IF s[k] = 92 THEN 47 ELSE s[k]]
(* Permitted names: clean UTF-8 without forbidden characters. *)
ValidName(s) == /\ s # <<>> /\ ((\A k \in DOMAIN s : s[k] < 127) \/ ToUtf8(s, 1, -1).out = s)
                /\ \A k \in DOMAIN s : s[k] \notin Bad
Platform(s, cap) == IF ValidName(s) /\ Len(s) + 1 <= cap THEN [r |-> TRUE, out |-> Slash(s)] ELSE [r |-> FALSE, out |-> <<>>]

(* The non-empty components. *)
Comps(s) == LET starts == {k \in DOMAIN s : s[k] # 47 /\ (k = 1 \/ s[k - 1] = 47)}
                slashes == {k \in DOMAIN s : s[k] = 47}
                End(k) == LET E == {j \in slashes : j > k} IN IF E = {} THEN Len(s) ELSE (CHOOSE x \in E : \A y \in E : x <= y) - 1
                order == SetToSortSeq(starts, LAMBDA a, b : a < b)
            IN [k \in 1..Len(order) |-> SubSeq(s, order[k], End(order[k]))]
RECURSIVE Walk(_, _)
Walk(done, rest) ==
    IF rest = <<>> THEN done
    ELSE LET c == Head(rest) IN
         IF c = <<46>> THEN Walk(done, Tail(rest))
         ELSE IF c = <<46, 46>> THEN Walk(IF done = <<>> THEN <<>> ELSE SubSeq(done, 1, Len(done) - 1), Tail(rest))
         ELSE Walk(done \o <<c>>, Tail(rest))
RECURSIVE Join(_)
Join(cs) == IF cs = <<>> THEN <<>> ELSE <<47>> \o Head(cs) \o Join(Tail(cs))

(* base: an absolute name without '.' and '..' components *)
Resolve(base, n) == LET s == Slash(n) IN
                    Walk(IF Head(s) = 47 THEN <<>> ELSE Comps(Slash(base)), Comps(s))
Absolute(base, n, tr, cap) ==
    IF ~ValidName(n) \/ ~ValidName(base) \/ Slash(base)[1] # 47 THEN [r |-> FALSE, out |-> <<>>]
    ELSE LET p == Join(Resolve(base, n)) \o (IF tr THEN <<47>> ELSE <<>>)
         IN IF Len(p) + 1 <= cap THEN [r |-> TRUE, out |-> p] ELSE [r |-> FALSE, out |-> <<>>]

(* Positions (from 0) of the file name and of its extensions. *)
MaxOf(S, d) == IF S = {} THEN d ELSE CHOOSE x \in S : \A y \in S : y <= x
MinOf(S, d) == IF S = {} THEN d ELSE CHOOSE x \in S : \A y \in S : x <= y
FileAt(s) == MaxOf({k \in DOMAIN s : s[k] = 47}, 0)
DotsAt(s) == {k - 1 : k \in {j \in DOMAIN s : s[j] = 46 /\ j > FileAt(s)}}
ExtAt(s)  == MinOf(DotsAt(s), Len(s))
LastAt(s) == MaxOf(DotsAt(s), Len(s))
=============================================================================
