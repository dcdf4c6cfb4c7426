-------------------------------- MODULE Serializer --------------------------------
(* JSON serializer writing into buffers supplied by the caller.               *)
(*   stack : what is open, innermost last: "root0"/"root1" (before/after the  *)
(*           root value), "obj0"/"obj1", "arr0"/"arr1" (empty/not), "str"     *)
(*   buf   : text in the current buffer; cap: bytes it can hold (terminator   *)
(*           not counted)                                                     *)
(*   doc   : everything the caller has taken from earlier buffers             *)
(*   depth : limit on the number of open levels, root included                *)
EXTENDS IntText
VARIABLES stack, buf, cap, doc, depth, esc, ks, vs
jvars == <<stack, buf, cap, doc, depth, esc, ks, vs>>
conf == <<depth, esc, ks, vs>>

Top == stack[Len(stack)]
InObj == Top \in {"obj0", "obj1"}
InStr == Top = "str"
Room(t) == Len(buf) + Len(t) <= cap

Hex(d) == IF d < 10 THEN 48 + d ELSE 55 + d
EscByte(b) == CASE b = 34 -> <<92, 34>> [] b = 92 -> <<92, 92>> [] b = 8 -> <<92, 98>> [] b = 12 -> <<92, 102>>
                [] b = 10 -> <<92, 110>> [] b = 13 -> <<92, 114>> [] b = 9 -> <<92, 116>>
                [] b = 47 -> (IF esc THEN <<92, 47>> ELSE <<47>>)
                [] OTHER -> IF b < 32 THEN <<92, 117, 48, 48, Hex(b \div 16), Hex(b % 16)>> ELSE <<b>>
RECURSIVE EscPart(_, _, _)
EscPart(s, i, j) == IF i > j THEN <<>> ELSE IF i = j THEN EscByte(s[i])
                    ELSE LET m == (i + j) \div 2 IN EscPart(s, i, m) \o EscPart(s, m + 1, j)
Escaped(s) == EscPart(s, 1, Len(s))
Quoted(s) == <<34>> \o Escaped(s) \o <<34>>

(* A value may come here: never inside a string, once at the root, with a key *)
(* in objects and without one elsewhere.                                      *)
Allowed(hk) == ~InStr /\ Top # "root1" /\ (hk <=> InObj)
Prefix(hk, k) == (IF Top \in {"obj1", "arr1"} THEN vs ELSE <<>>) \o (IF hk THEN Quoted(k) \o ks ELSE <<>>)
Filled == CASE Top = "obj0" -> "obj1" [] Top = "arr0" -> "arr1" [] Top = "root0" -> "root1" [] OTHER -> Top
StackNext == [stack EXCEPT ![Len(stack)] = Filled]

Refuse == UNCHANGED jvars
(* `need': bytes the call insists on beyond the prefix (a boolean insists on  *)
(* the longer of its two texts).                                              *)
Value(hk, k, text, need, ret) ==
  IF Allowed(hk) /\ Len(buf) + Len(Prefix(hk, k)) + need <= cap
  THEN ret /\ buf' = buf \o Prefix(hk, k) \o text /\ stack' = StackNext /\ UNCHANGED <<cap, doc, conf>>
  ELSE ~ret /\ Refuse
Plain(hk, k, text, ret) == Value(hk, k, text, Len(text), ret)
True == <<116, 114, 117, 101>>
False == <<102, 97, 108, 115, 101>>
Null(hk, k, ret) == Plain(hk, k, <<110, 117, 108, 108>>, ret)
Bool(hk, k, v, ret) == LET t == IF v THEN True ELSE False
                       IN \/ Value(hk, k, t, 5, ret)
                          \/ Plain(hk, k, t, ret)
IntVal(hk, k, w, sg, ret) == Plain(hk, k, Text(w, sg, 10, 0), ret)
Str(hk, k, s, ret) ==
  IF InStr THEN IF Room(Escaped(s)) THEN ret /\ buf' = buf \o Escaped(s) /\ UNCHANGED <<stack, cap, doc, conf>>
                ELSE ~ret /\ Refuse
  ELSE Plain(hk, k, Quoted(s), ret)

OpenText(kind) == CASE kind = "obj0" -> <<123>> [] kind = "arr0" -> <<91>> [] kind = "str" -> <<34>>
Open(kind, hk, k, ret) ==
  IF Len(stack) < depth /\ Allowed(hk) /\ Room(Prefix(hk, k) \o OpenText(kind))
  THEN /\ ret /\ buf' = buf \o Prefix(hk, k) \o OpenText(kind)
       /\ stack' = Append(StackNext, kind) /\ UNCHANGED <<cap, doc, conf>>
  ELSE ~ret /\ Refuse
CloseText == CASE InObj -> <<125>> [] InStr -> <<34>> [] Top \in {"arr0", "arr1"} -> <<93>>
Closes(kind) == CASE kind = "obj" -> InObj [] kind = "arr" -> Top \in {"arr0", "arr1"} [] kind = "str" -> InStr
Close(kind, ret) ==
  IF Closes(kind) /\ Room(<<0>>)
  THEN ret /\ buf' = buf \o CloseText /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED <<cap, doc, conf>>
  ELSE ~ret /\ Refuse
(* Close everything that is open, as far as it fits. *)
RECURSIVE ClosedBy(_, _, _)
ClosedBy(st, b, n) == IF Len(st) = 1 \/ n = 0 THEN [st |-> st, b |-> b]
                      ELSE LET t == st[Len(st)] IN ClosedBy(SubSeq(st, 1, Len(st) - 1), b \o (IF t \in {"obj0", "obj1"} THEN <<125>> ELSE IF t = "str" THEN <<34>> ELSE <<93>>), n - 1)
Finish(ret) == LET r == ClosedBy(stack, buf, cap - Len(buf))
               IN ret = (Len(r.st) = 1) /\ stack' = r.st /\ buf' = r.b /\ UNCHANGED <<cap, doc, conf>>
(* Anything at all, e.g. white space. *)
Raw(t, ret) == IF Room(t) THEN ret /\ buf' = buf \o t /\ UNCHANGED <<stack, cap, doc, conf>> ELSE ~ret /\ Refuse

SetBuffer(c) == cap' = c /\ doc' = doc \o buf /\ buf' = <<>> /\ UNCHANGED <<stack, conf>>
ResetPos == doc' = doc \o buf /\ buf' = <<>> /\ UNCHANGED <<stack, cap, conf>>
Reset == stack' = <<"root0">> /\ buf' = <<>> /\ doc' = <<>> /\ UNCHANGED <<cap, conf>>
Options(e, k, v) == esc' = e /\ ks' = k /\ vs' = v /\ UNCHANGED <<stack, buf, cap, doc, depth>>
New(e, k, v, d) == stack' = <<"root0">> /\ buf' = <<>> /\ cap' = 0 /\ doc' = <<>> /\ depth' = d /\ esc' = e /\ ks' = k /\ vs' = v

StrSize(s, withks) == Len(Escaped(s)) + (IF InStr THEN 0 ELSE 2) + (IF withks THEN Len(ks) ELSE 0)

Fit == Len(buf) <= cap
Deep == Len(stack) <= depth
=============================================================================
