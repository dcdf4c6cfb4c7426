---------------------------- MODULE HashFnTrace -----------------------------
EXTENDS HashFn, TraceKit
HStep(e) ==
  \/ e.op = "sip" /\ e.h = SipHash(e.m, e.k1, e.k2, e.c, e.d)
  \/ e.op = "djb" /\ e.h = Djbx33x(e.m, e.k1)
  \/ e.op = "cache" /\ e.h = Djbx33x(e.m, LOf(5381))
  \/ e.op = "text" /\ e.h = Djb2Text(e.m)
TInit == TKInit
TNext == More /\ Adv /\ HStep(Ev)
TSpec == TInit /\ [][TNext]_<<tid, l>>
=============================================================================
