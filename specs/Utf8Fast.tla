------------------------------ MODULE Utf8Fast ------------------------------
(* The same functions as in Utf8, in a form that long texts can be evaluated  *)
(* with (the recursive definitions are as deep as the text is long).  MCUtf8  *)
(* checks that both agree.                                                    *)
EXTENDS Utf8
CONSTANT Chunk
LeastOf(S) == CHOOSE x \in S : \A y \in S : x <= y
(* A unit no sequence that starts before it can contain. *)
Cuts(s, i, w) == CASE w = 1 -> s[i] \notin 128..191 [] w = 2 -> s[i] \notin 56320..57343 [] OTHER -> TRUE
RECURSIVE ItemsIn(_, _, _, _)
ItemsIn(s, lo, hi, w) ==
  LET m == (lo + hi) \div 2
      z == {x \in (m + 1)..(IF m + 8 < hi THEN m + 8 ELSE hi) : Cuts(s, x, w)}
      direct == Items(SubSeq(s, lo, hi), 1, w)
  IN IF hi - lo < Chunk THEN [k \in 1..Len(direct) |-> [cp |-> direct[k].cp, last |-> direct[k].last + lo - 1]]
     ELSE LET c == IF z # {} THEN LeastOf(z) ELSE LET y == {x \in (lo + 1)..hi : Cuts(s, x, w)} IN IF y = {} THEN 0 ELSE LeastOf(y)
          IN IF c = 0 THEN [k \in 1..Len(direct) |-> [cp |-> direct[k].cp, last |-> direct[k].last + lo - 1]]
             ELSE ItemsIn(s, lo, c - 1, w) \o ItemsIn(s, c, hi, w)
FItems(s, w) == IF s = <<>> THEN <<>> ELSE ItemsIn(s, 1, Len(s), w)

(* encodings of a part of a list of items, and how many of them fit *)
RECURSIVE EncIn(_, _, _, _)
EncIn(it, lo, hi, w) == IF lo > hi THEN <<>> ELSE IF lo = hi THEN Enc(it[lo].cp, w)
                        ELSE LET m == (lo + hi) \div 2 IN EncIn(it, lo, m, w) \o EncIn(it, m + 1, hi, w)
RECURSIVE FitIn(_, _, _, _, _)
FitIn(st, it, lo, hi, w) ==
  IF lo > hi \/ st.full THEN st
  ELSE IF lo = hi THEN LET n == Len(Enc(it[lo].cp, w)) IN IF n > st.left THEN [st EXCEPT !.full = TRUE] ELSE [n |-> st.n + 1, left |-> st.left - n, full |-> FALSE]
  ELSE LET m == (lo + hi) \div 2 IN FitIn(FitIn(st, it, lo, m, w), it, m + 1, hi, w)
Fits(it, w, cap) == IF cap = -1 THEN Len(it) ELSE FitIn([n |-> 0, left |-> cap, full |-> FALSE], it, 1, Len(it), w).n

FToUtf8(s, w, cap) ==
  IF w \notin {1, 2, 4} THEN [out |-> <<>>, last |-> 0]
  ELSE LET all == SelectSeq(FItems(s, w), LAMBDA x : Permitted(x.cp))
           first == {k \in 1..Len(all) : ~Combining(all[k].cp)}
           it == IF first = {} THEN <<>> ELSE SubSeq(all, LeastOf(first), Len(all))
           n == Fits(it, 1, cap)
       IN [out |-> EncIn(it, 1, n, 1), last |-> IF n = 0 THEN 0 ELSE it[n].last]
FFromUtf8(s, w, cap) ==
  IF w \notin {1, 2, 4} THEN <<>>
  ELSE LET all == FItems(s, 1)
           bad == {k \in 1..Len(all) : ~Permitted(all[k].cp) \/ (k = 1 /\ Combining(all[k].cp))}
           it == IF bad = {} THEN all ELSE SubSeq(all, 1, LeastOf(bad) - 1)
       IN EncIn(it, 1, Fits(it, w, cap), w)
FScan(s) ==
  LET all == FItems(s, 1)
      from(k) == IF k = 1 THEN 1 ELSE all[k - 1].last + 1      \* where it would have to start
      bad == {k \in 1..Len(all) : all[k].cp = 0 \/ all[k].last # from(k) + At8(s, from(k)).n - 1}
      n == IF bad = {} THEN Len(all) ELSE LeastOf(bad) - 1
  IN IF n > 0 /\ Combining(all[1].cp) THEN <<>> ELSE [k \in 1..n |-> [cp |-> all[k].cp, at |-> from(k) - 1]]
FStrLen(p) == Cardinality({k \in 1..Len(p) : ~Marked(p, k)})
FFind(p, c, allow) == LET hits == {k \in 1..Len(p) : p[k].cp = c /\ (allow \/ ~Marked(p, k))}
                      IN IF hits = {} \/ (~allow /\ Combining(c)) THEN -1 ELSE p[LeastOf(hits)].at
FAscii(p) == LET q == SelectSeq([k \in 1..Len(p) |-> k], LAMBDA k : p[k].cp <= 127 /\ ~Marked(p, k)) IN [k \in 1..Len(q) |-> p[q[k]].cp]
FUpToZero(s) == LET z == {k \in 1..Len(s) : s[k] = 0} IN IF z = {} THEN s ELSE SubSeq(s, 1, LeastOf(z) - 1)
=============================================================================
