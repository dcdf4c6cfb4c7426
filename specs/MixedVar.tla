------------------------------ MODULE MixedVar ------------------------------
(* Variables that hold "nothing", a boolean, an integer, a floating-point     *)
(* number or a byte string.  One record per variable:                         *)
(*   cap  : size of the fixed buffer including the terminator; 0: unbounded   *)
(*   mode : 0 none, 1 bool, 2 int, 3 unsigned int, 4 double, 5 string         *)
(*   int, dbl : the stored words (four 16-bit limbs, least significant first) *)
(*   str  : the stored bytes                                                  *)
(* Numbers and the string are independent: storing one does not disturb the   *)
(* other, and string edits do not change what kind of value is stored.        *)
EXTENDS IntText, FiniteSets
CONSTANT Vars
VARIABLE mv
MVars == <<mv>>

Zero == <<0, 0, 0, 0>>
Blank(c) == [cap |-> c, mode |-> 0, int |-> Zero, dbl |-> Zero, str |-> <<>>]
Bounded(r) == r.cap # 0
Room(r) == r.cap - 1
Trunc(r, s) == IF Bounded(r) /\ Len(s) > Room(r) THEN SubSeq(s, 1, Room(r)) ELSE s
Put(v, n) == mv' = [mv EXCEPT ![v] = n]

New(v, c) == Put(v, Blank(c))
SetBool(v, b) == Put(v, [mv[v] EXCEPT !.mode = 1, !.int = <<IF b THEN 1 ELSE 0, 0, 0, 0>>])
SetInt(v, w)  == Put(v, [mv[v] EXCEPT !.mode = 2, !.int = w])
SetUInt(v, w) == Put(v, [mv[v] EXCEPT !.mode = 3, !.int = w])
SetDouble(v, w) == Put(v, [mv[v] EXCEPT !.mode = 4, !.dbl = w])
SetStr(v, s)  == Put(v, [mv[v] EXCEPT !.mode = 5, !.str = Trunc(mv[v], s)])

AppendText(v, s) == Put(v, [mv[v] EXCEPT !.str = Trunc(mv[v], @ \o s)])
(* Only if there is enough space; whether a result that fills the buffer to   *)
(* the last byte counts as enough is left open.                               *)
PrependText(v, s) ==
  LET r == mv[v]  n == s \o r.str
  IN \/ (~Bounded(r) \/ Len(n) <= Room(r)) /\ Put(v, [r EXCEPT !.str = n])
     \/ (Bounded(r) /\ Len(n) >= Room(r)) /\ UNCHANGED mv
(* Numbers travel through a 44 byte buffer. *)
NumberFits(t) == Len(t) <= 43
AppendInt(v, w, sg, r)  == LET t == Text(w, sg, r, 0) IN AppendText(v, t)  \/ (~NumberFits(t) /\ UNCHANGED mv)
PrependInt(v, w, sg, r) == LET t == Text(w, sg, r, 0) IN PrependText(v, t) \/ (~NumberFits(t) /\ UNCHANGED mv)
AppendMissing(v, c) == IF mv[v].str # <<>> /\ mv[v].str[Len(mv[v].str)] = c THEN UNCHANGED mv ELSE AppendText(v, <<c>>)
RemoveTrailing(v, c, ret) ==
  LET s == mv[v].str
  IN IF s # <<>> /\ s[Len(s)] = c THEN ret /\ Put(v, [mv[v] EXCEPT !.str = SubSeq(s, 1, Len(s) - 1)])
     ELSE ~ret /\ UNCHANGED mv
(* Shortening keeps the prefix; lengthening exposes bytes of any value. *)
Resized(v, n, s) == LET r == mv[v]  k == Len(r.str)
                    IN IF Bounded(r) /\ n > Room(r) THEN s = r.str
                       ELSE LET c == IF n < k THEN n ELSE k IN Len(s) = n /\ SubSeq(s, 1, c) = SubSeq(r.str, 1, c)
SetSize(v, n, s) == Resized(v, n, s) /\ Put(v, [mv[v] EXCEPT !.str = s])
Assign(v, s) == Put(v, [mv[s] EXCEPT !.cap = mv[v].cap])
Replaced(v, s) == Put(v, [mv[v] EXCEPT !.str = Trunc(mv[v], s)])

TypeOK == \A v \in Vars : /\ mv[v].mode \in 0..5
                          /\ Bounded(mv[v]) => Len(mv[v].str) < mv[v].cap
=============================================================================
