---------------------------- MODULE IntTextTrace ----------------------------
EXTENDS IntText, TraceKit
Step(e) ==
  \/ e.op = "int" /\ IntToText(e.w, e.sg, e.radix, e.sep, e.size, e.ok, e.txt) /\ e.guard
  \/ e.op = "size" /\ ToFilesize(e.b, e.neg, e.nf, e.sep, e.dec, e.usep, e.bytes, e.size, e.ok, e.txt) /\ e.guard
TInit == TKInit
TNext == More /\ Adv /\ Step(Ev)
TSpec == TInit /\ [][TNext]_<<tid, l>>
=============================================================================
