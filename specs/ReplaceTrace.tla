---------------------------- MODULE ReplaceTrace ----------------------------
EXTENDS Replace, TraceKit
Step(e) ==
  \/ e.op = "pattern" /\ RSetPattern(e.p)
  \/ e.op = "data" /\ RSetData(e.d, e.cap)
  \/ e.op = "find" /\ RFindNext(e.ret, e.m)
  \/ e.op = "replace" /\ RReplace(e.d, e.post)
     \* what the caller takes away once the finder is exhausted, or looks at on the way
  \/ e.op = "out" /\ e.res = out /\ UNCHANGED rvars
  \/ e.op = "all" /\ ReplaceAll(e.d, e.p, e.r, e.lim, e.m, e.res, e.num) /\ UNCHANGED rvars
  \/ e.op = "static" /\ StaticReplaceAll(e.d, e.p, e.r, e.lim, e.m, e.cap, e.res, e.num) /\ UNCHANGED rvars
  \/ e.op = "end" /\ e.leak = 0 /\ UNCHANGED rvars
TInit == RInit /\ TKInit
TNext == More /\ Adv /\ Step(Ev)
TSpec == TInit /\ [][TNext]_<<rvars, tid, l>>
=============================================================================
