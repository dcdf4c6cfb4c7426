--------------------------- MODULE SharedLibTrace ---------------------------
EXTENDS SharedLib, TraceKit
Step(e) ==
  \/ e.op = "mod" /\ NewMod(e.id, e.lib)
  \/ e.op = "delmod" /\ DelMod(e.id)
  \/ e.op = "load" /\ Load(e.id, e.ret)
  \/ e.op \in {"call", "callnew"} /\ Call(e.id, e.name, e.args, e.ret, e.val, e.extra, e.rec, e.op = "call")
  \/ e.op \in {"once", "oncenew"} /\ Once(e.lib, e.name, e.args, e.ret, e.val, e.extra, e.rec, e.op = "once")
  \/ e.op = "end" /\ held' = {} /\ UNCHANGED <<mods, pinned>>
InMemory(lib) == lib \in pinned' \/ \E m \in held' : mods'[m] = lib
Reads(e) == e.l1 = InMemory(1) /\ e.l2 = InMemory(2)
TInit == TKInit /\ LInit
TNext == More /\ Adv /\ Step(Ev) /\ Reads(Ev)
TSpec == TInit /\ [][TNext]_<<lvars, tid, l>>
=============================================================================
