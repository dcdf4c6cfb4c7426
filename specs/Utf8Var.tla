------------------------------ MODULE Utf8Var -------------------------------
(* The fixed-size mixed variable with wide-character text on top.             *)
EXTENDS MixedVar, Utf8
SetU8(v, cps) == Put(v, [mv[v] EXCEPT !.mode = 5, !.str = ToUtf8(cps, 4, Room(mv[v])).out])
AppendU8(v, cps) ==
  LET r == mv[v]  o == ToUtf8(cps, 4, Room(r) - Len(r.str)).out
  IN \/ Put(v, [r EXCEPT !.str = @ \o o])
     \* a trailing zero byte may be taken for a terminator
     \/ o = <<>> /\ r.str # <<>> /\ r.str[Len(r.str)] = 0 /\ Put(v, [r EXCEPT !.str = SubSeq(@, 1, Len(@) - 1)])
GetU8(v, n, out) == out = FromUtf8(mv[v].str \o <<0>>, 4, n) /\ UNCHANGED mv
=============================================================================
