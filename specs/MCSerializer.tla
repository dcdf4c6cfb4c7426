------------------------------- MODULE MCSerializer -------------------------------
(* The text accepted so far decodes to exactly the values appended: `tree' is *)
(* the ideal value under construction, one entry per open level.              *)
EXTENDS Serializer
CONSTANTS MaxDoc, Caps, D
VARIABLE tree
mvars == <<jvars, tree>>
Keys == {<<97>>}
StrVals == {<<34>>, <<7>>}
W == {<<5, 0, 0, 0>>, <<65535, 65535, 65535, 65535>>}
Last == tree[Len(tree)]
PutV(t, hk, k, v) == [t EXCEPT ![Len(t)] = Append(@, IF hk THEN <<k, v>> ELSE v)]
Init == /\ stack = <<"root0">> /\ buf = <<>> /\ doc = <<>> /\ cap \in Caps /\ depth = D
        /\ esc = FALSE /\ ks = <<58>> /\ vs = <<44>> /\ tree = <<<<>>>>
Val(hk, k, v) == tree' = PutV(tree, hk, k, v)
Same == UNCHANGED tree
Next ==
  \/ \E hk \in BOOLEAN, k \in Keys :
     \/ Null(hk, k, TRUE) /\ Val(hk, k, <<"n">>)
     \/ \E v \in BOOLEAN : Bool(hk, k, v, TRUE) /\ Val(hk, k, <<"b", v>>)
     \/ \E w \in W : IntVal(hk, k, w, TRUE, TRUE) /\ Val(hk, k, <<"i", Text(w, TRUE, 10, 0)>>)
     \/ \E s \in StrVals : Str(hk, k, s, TRUE) /\ IF InStr THEN tree' = [tree EXCEPT ![Len(tree)] = @ \o s] ELSE Val(hk, k, <<"s", s>>)
     \/ \E kind \in {"obj0", "arr0", "str"} : Open(kind, hk, k, TRUE) /\ tree' = Append((IF hk THEN [tree EXCEPT ![Len(tree)] = Append(@, <<k>>)] ELSE tree), <<>>)
  \/ \E kind \in {"obj", "arr", "str"} : Close(kind, TRUE) /\
        LET v == <<CASE kind = "obj" -> "o" [] kind = "arr" -> "a" [] kind = "str" -> "s", Last>>
            up == SubSeq(tree, 1, Len(tree) - 1)
            p == up[Len(up)]
            parentObj == stack[Len(stack) - 1] = "obj1"
        IN tree' = [up EXCEPT ![Len(up)] = IF parentObj THEN SubSeq(p, 1, Len(p) - 1) \o <<<<p[Len(p)][1], v>>>> ELSE Append(p, v)]
  \/ \E c \in Caps : SetBuffer(c) /\ Same
  \/ Reset /\ tree' = <<<<>>>>
Spec == Init /\ [][Next]_mvars

-----------------------------------------------------------------------------
(* an independent reader *)
Txt == doc \o buf
RECURSIVE PVal(_, _), PStr(_, _, _), PArr(_, _, _), PObj(_, _, _), PNum(_, _)
Bad == [ok |-> FALSE, v |-> <<>>, i |-> 0]
PStr(t, i, o) == IF i > Len(t) THEN Bad
                 ELSE IF t[i] = 34 THEN [ok |-> TRUE, v |-> o, i |-> i + 1]
                 ELSE IF t[i] = 92 THEN IF t[i + 1] = 117 THEN PStr(t, i + 6, o \o <<(t[i + 4] - 48) * 16 + (IF t[i + 5] > 57 THEN t[i + 5] - 55 ELSE t[i + 5] - 48)>>)
                                        ELSE PStr(t, i + 2, o \o <<t[i + 1]>>)
                 ELSE IF t[i] < 32 THEN Bad ELSE PStr(t, i + 1, o \o <<t[i]>>)
PNum(t, i) == IF i > Len(t) \/ t[i] \notin (48..57 \cup {45}) THEN i ELSE PNum(t, i + 1)
PArr(t, i, o) == IF t[i] = 93 /\ o = <<>> THEN [ok |-> TRUE, v |-> <<"a", o>>, i |-> i + 1]
                 ELSE LET e == PVal(t, i) n == Append(o, e.v)
                      IN IF ~e.ok THEN Bad ELSE IF t[e.i] = 93 THEN [ok |-> TRUE, v |-> <<"a", n>>, i |-> e.i + 1] ELSE IF t[e.i] = 44 THEN PArr(t, e.i + 1, n) ELSE Bad
PObj(t, i, o) == IF t[i] = 125 /\ o = <<>> THEN [ok |-> TRUE, v |-> <<"o", o>>, i |-> i + 1]
                 ELSE IF t[i] # 34 THEN Bad
                 ELSE LET k == PStr(t, i + 1, <<>>)  e == PVal(t, k.i + 1)  n == Append(o, <<k.v, e.v>>)
                      IN IF ~k.ok \/ t[k.i] # 58 \/ ~e.ok THEN Bad ELSE IF t[e.i] = 125 THEN [ok |-> TRUE, v |-> <<"o", n>>, i |-> e.i + 1] ELSE IF t[e.i] = 44 THEN PObj(t, e.i + 1, n) ELSE Bad
PVal(t, i) == CASE t[i] = 34 -> (LET s == PStr(t, i + 1, <<>>) IN [s EXCEPT !.v = <<"s", @>>])
                [] t[i] = 91 -> PArr(t, i + 1, <<>>) [] t[i] = 123 -> PObj(t, i + 1, <<>>)
                [] t[i] = 110 -> [ok |-> TRUE, v |-> <<"n">>, i |-> i + 4]
                [] t[i] = 116 -> [ok |-> TRUE, v |-> <<"b", TRUE>>, i |-> i + 4]
                [] t[i] = 102 -> [ok |-> TRUE, v |-> <<"b", FALSE>>, i |-> i + 5]
                [] OTHER -> [ok |-> TRUE, v |-> <<"i", SubSeq(t, i, PNum(t, i) - 1)>>, i |-> PNum(t, i)]
Denotes == (stack = <<"root1">>) => LET r == PVal(Txt, 1) IN r.ok /\ r.i = Len(Txt) + 1 /\ r.v = tree[1][1]
Short == Len(doc \o buf) <= MaxDoc
=============================================================================
