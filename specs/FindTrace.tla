----------------------------- MODULE FindTrace ------------------------------
EXTENDS Find, TraceKit
Step(e) ==
  \/ e.op = "pattern" /\ SetPattern(e.p)
  \/ e.op = "data" /\ SetData(e.d)
  \/ e.op = "find" /\ FindNext(e.ret, e.m)
  \/ e.op = "skip" /\ SkipMatch(e.extra, e.ret)
  \/ e.op = "end" /\ e.leak = 0 /\ UNCHANGED vars
TInit == Init /\ TKInit
TNext == More /\ Adv /\ Step(Ev)
TSpec == TInit /\ [][TNext]_<<vars, tid, l>>
=============================================================================
