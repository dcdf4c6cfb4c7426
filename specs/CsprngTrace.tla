---------------------------- MODULE CsprngTrace -----------------------------
EXTENDS Csprng, TraceKit
Step(e) ==
  \/ e.op = "new" /\ New(e.safe, {d \in 1..3 : e.avail[d] = 1})
  \/ e.op = "bytes" /\ Ask(e.n)
  \/ e.op = "read" /\ SysRead(e.dev + 1, e.n, e.r, e.data)
  \/ e.op = "bytesret" /\ Answer(e.ret, e.out)
  \/ e.op = "int" /\ Integer64(e.a, e.b, e.err, e.ret, e.v)
  \/ e.op = "draws" /\ Draws(e.n, e.inside, e.cnt)
  \/ e.op = "ends" /\ Ends(e.inside, e.lo, e.hi)
  \/ e.op = "end" /\ e.opened = e.closed /\ UNCHANGED cvars
TInit == TKInit /\ CInit
TNext == More /\ Adv /\ Step(Ev)
TSpec == TInit /\ [][TNext]_<<cvars, tid, l>>
=============================================================================
