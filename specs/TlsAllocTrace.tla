--------------------------- MODULE TlsAllocTrace ----------------------------
EXTENDS TlsAlloc, TraceKit
HugeClass == 31     \* requests no system can satisfy are logged with this class
Step(e) ==
  \/ e.op = "join" /\ e.ret /\ Join(e.t, e.lim)
  \/ e.op = "leave" /\ Leave(e.t, e.ret)
  \/ e.op = "malloc" /\ e.ret /\ Alloc(e.t, e.id, e.n, e.tag)
  \/ e.op = "malloc" /\ ~e.ret /\ AllocNothing(e.t, e.n)
  \/ e.op = "huge" /\ ~e.ret /\ (AllocFails(e.t, e.n, HugeClass) \/ AllocNothing(e.t, e.n))
  \/ e.op = "free" /\ Release(e.t, e.id, e.keep)
     \* freeing nothing
  \/ e.op = "freenull" /\ UNCHANGED vars
  \/ e.op = "realloc" /\ e.ret /\ e.pre = blk[e.id].tag /\ Resize(e.t, e.id, e.n, e.keep, e.tag, e.moved)
  \/ e.op = "realloc0" /\ ~e.ret /\ Release(e.t, e.id, e.keep)
  \/ e.op = "hugere" /\ ~e.ret /\ ResizeFails(e.t, e.id, e.n, HugeClass)
     \* the copy has every byte asked for, and the block itself is released
  \/ e.op = "dup" /\ e.val = blk[e.id].tag /\ Release(e.t, e.id, e.keep)
  \/ e.op = "bucket" /\ Bucket(e.t, e.p, e.ret, e.nodes) /\ (e.ret => e.bytes = e.nodes * (IF 2^e.p < e.node THEN e.node ELSE 2^e.p))
     \* every live block still holds what was stored in it
  \/ e.op = "look" /\ {x[1] : x \in {e.b[k] : k \in 1..Len(e.b)}} = Live
                   /\ (\A k \in 1..Len(e.b) : blk[e.b[k][1]].tag = e.b[k][2]) /\ UNCHANGED vars
  \/ e.op = "end" /\ e.leak = 0 /\ Live = {} /\ (\A t \in Threads : ~Joined(t)) /\ UNCHANGED vars
TInit == TKInit /\ th = [t \in Threads |-> <<>>] /\ blk = <<>>
TNext == More /\ Adv /\ Step(Ev)
TSpec == TInit /\ [][TNext]_<<vars, tid, l>>
=============================================================================
