----------------------------- MODULE MCUtf8Var ------------------------------
EXTENDS Utf8Var
CONSTANT Cap
Cps == {<<>>, <<65>>, <<233>>, <<8364, 65>>, <<128512>>, <<769, 65>>, <<55296, 233>>}
Init == mv = [v \in Vars |-> Blank(Cap)]
Next == \E v \in Vars : \/ \E c \in Cps : SetU8(v, c) \/ AppendU8(v, c)
                        \/ SetStr(v, <<65>>) \/ AppendText(v, <<66>>) \/ New(v, Cap)
Spec == Init /\ [][Next]_mv
(* only whole characters: the text survives cleaning unchanged *)
WholeChars == \A v \in Vars : \A k \in {1} : LET s == mv[v].str IN Len(ToUtf8(s, 1, -1).out) = Len(s)
=============================================================================
