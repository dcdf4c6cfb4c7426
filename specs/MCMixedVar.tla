----------------------------- MODULE MCMixedVar -----------------------------
EXTENDS MixedVar
CONSTANT Cap, MaxLen
Strs == {<<>>, <<1>>, <<1, 2>>}
W == {<<7, 0, 0, 0>>, <<65535, 65535, 65535, 65535>>}
Init == mv = [v \in Vars |-> Blank(IF v = 1 THEN Cap ELSE 0)]
Next == \E v \in Vars :
  \/ \E s \in Strs : SetStr(v, s) \/ AppendText(v, s) \/ PrependText(v, s)
  \/ \E w \in W : SetInt(v, w) \/ SetUInt(v, w) \/ AppendInt(v, w, TRUE, 10)
  \/ \E b \in BOOLEAN : SetBool(v, b)
  \/ \E c \in {1, 2} : AppendMissing(v, c) \/ (\E b \in BOOLEAN : RemoveTrailing(v, c, b))
  \/ \E n \in 0..3 : \E s \in Strs : SetSize(v, n, s)
  \/ \E s \in Vars : Assign(v, s) /\ (v = 1 => Len(mv[s].str) < Cap)
  \/ New(v, mv[v].cap)
Spec == Init /\ [][Next]_mv
Short == \A v \in Vars : Len(mv[v].str) <= MaxLen
(* text written never disturbs a stored number and vice versa *)
Independent == [][\A v \in Vars : (mv'[v].str # mv[v].str /\ mv'[v].int # mv[v].int) => \E s \in Vars \cup {0} : mv'[v].str = (IF s = 0 THEN <<>> ELSE mv[s].str)]_mv
PrefixKept == [][\A v \in Vars : \A s \in Strs : AppendText(v, s) => SubSeq(mv'[v].str, 1, Len(mv[v].str)) = mv[v].str]_mv
=============================================================================
