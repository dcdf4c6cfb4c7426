----------------------------- MODULE SerializerTrace ------------------------------
EXTENDS Serializer, TraceKit
Kind(k) == CASE k = 0 -> "obj0" [] k = 1 -> "arr0" [] k = 2 -> "str"
End(k) == CASE k = 0 -> "obj" [] k = 1 -> "arr" [] k = 2 -> "str"
Step(e) ==
  \/ e.op = "new" /\ New(e.esc, e.ks, e.vs, e.depth)
  \/ e.op = "buffer" /\ SetBuffer(IF e.n = 0 THEN 0 ELSE e.n - 1)
  \/ e.op = "resetpos" /\ ResetPos
  \/ e.op = "reset" /\ Reset
  \/ e.op = "options" /\ Options(e.esc, e.ks, e.vs)
  \/ e.op = "null" /\ Null(e.hk, e.k, e.ret)
  \/ e.op = "bool" /\ Bool(e.hk, e.k, e.v, e.ret)
  \/ e.op = "int" /\ IntVal(e.hk, e.k, e.w, e.sg, e.ret)
  \/ e.op = "double" /\ (IF e.finite THEN Plain(e.hk, e.k, e.txt, e.ret) ELSE ~e.ret /\ Refuse)
  \/ e.op = "str" /\ Str(e.hk, e.k, e.s, e.ret)
  \/ e.op = "strnull" /\ ~e.ret /\ Refuse
  \/ e.op = "open" /\ Open(Kind(e.kind), e.hk, e.k, e.ret)
  \/ e.op = "close" /\ Close(End(e.kind), e.ret)
  \/ e.op = "finish" /\ Finish(e.ret)
  \/ e.op = "raw" /\ Raw(e.s, e.ret)
  \/ e.op = "strsize" /\ e.n = StrSize(e.s, e.add) /\ UNCHANGED jvars
ModeName(m) == <<"root0", "root1", "obj0", "obj1", "arr0", "arr1", "str">>[m + 1]
(* what the caller can see after every call *)
Reads(e) == /\ e.out = buf' /\ e.nul /\ ModeName(e.mode) = stack'[Len(stack')]
            /\ e.keyreq = (stack'[Len(stack')] \in {"obj0", "obj1"})
            /\ e.size = cap'
TInit == TKInit /\ stack = <<"root0">> /\ buf = <<>> /\ cap = 0 /\ doc = <<>> /\ depth = 1 /\ esc = FALSE /\ ks = <<>> /\ vs = <<>>
TNext == More /\ Adv /\ Step(Ev) /\ Reads(Ev)
TSpec == TInit /\ [][TNext]_<<jvars, tid, l>>
=============================================================================
