----------------------------- MODULE QueueTrace -----------------------------
EXTENDS Queue, TraceKit

First(s) == IF s = <<>> THEN 0 ELSE s[1]
Last(s)  == IF s = <<>> THEN 0 ELSE s[Len(s)]
Obs(e) ==
  /\ \A i \in Lists :
       /\ e.f[i] = seq'[i]
       /\ e.n[i] = Len(seq'[i])
       /\ e.first[i] = First(seq'[i]) /\ e.last[i] = Last(seq'[i])
       /\ e.v[i] = [k \in 1..Len(seq'[i]) |-> val'[seq'[i][k]]]
  /\ e.live = Cardinality(DOMAIN val')

RECURSIVE Expand(_, _, _)
Expand(r, k, d) == IF k > Len(r) THEN <<>> ELSE [j \in 1..r[k + 1] |-> r[k] + d * (j - 1)] \o Expand(r, k + 2, d)
ObsRuns(e) ==
  /\ \A i \in Lists :
       /\ Expand(e.fr[i], 1, 1) = seq'[i]
       /\ e.n[i] = Len(seq'[i])
       /\ e.first[i] = First(seq'[i]) /\ e.last[i] = Last(seq'[i])
       /\ Expand(e.vr[i], 1, 0) = [k \in 1..Len(seq'[i]) |-> val'[seq'[i][k]]]
  /\ e.live = Cardinality(DOMAIN val')

Step(e) ==
  \/ e.op = "many" /\ InsertMany(e.l, e.c, e.x)
  \/ e.op = "push"    /\ e.ret = nid /\ PushNew(e.l, e.x)
  \/ e.op = "unshift" /\ e.ret = nid /\ UnshiftNew(e.l, e.x)
  \/ e.op = "pushnode"    /\ e.ret = e.node /\ PushNode(e.l, e.node)
  \/ e.op = "unshiftnode" /\ e.ret = e.node /\ UnshiftNode(e.l, e.node)
  \/ e.op = "reinsert" /\ e.ret = 0 /\ UNCHANGED vars
  \/ e.op = "new" /\ e.ret = nid /\ NewNode(e.x)
  \/ e.op = "shift" /\ (IF seq[e.l] = <<>> THEN e.ret = 0 /\ UNCHANGED vars ELSE e.ret = seq[e.l][1] /\ Shift(e.l))
  \/ e.op = "free" /\ FreeNode(e.node)
  \/ e.op = "empty" /\ Empty(e.l)
  \/ e.op = "append" /\ AppendAll(e.l, e.src)
  \/ e.op = "copy" /\ Copy(e.l, e.src)
  \/ e.op = "write" /\ Write(e.node, e.x)

TInit == Init /\ TKInit
TNext == More /\ Adv /\
         \/ Ev.op # "end" /\ Step(Ev) /\ (IF "fr" \in DOMAIN Ev THEN ObsRuns(Ev) ELSE Obs(Ev))
         \/ Ev.op = "end" /\ Ev.live = 0 /\ Ev.leak = 0 /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, tid, l>>
=============================================================================
