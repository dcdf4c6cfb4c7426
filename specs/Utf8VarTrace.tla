---------------------------- MODULE Utf8VarTrace ----------------------------
EXTENDS MixedVarTrace, Utf8Var
UStep(e) ==
  \/ e.op = "setu8" /\ SetU8(e.v, e.cp)
  \/ e.op = "appu8" /\ AppendU8(e.v, e.cp)
  \/ e.op = "getu8" /\ e.z = Len(e.o) /\ GetU8(e.v, e.n, e.o)
UNext == More /\ Adv /\ (Step(Ev) \/ UStep(Ev)) /\ Reads(Ev)
USpec == TInit /\ [][UNext]_<<mv, tid, l>>
=============================================================================
