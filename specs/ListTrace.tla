----------------------------- MODULE ListTrace ------------------------------
EXTENDS List, TraceKit

(* Every event carries what the caller can see of every list afterwards:      *)
(* forward walk, backward walk, size, values, and the number of live elements *)
Obs(e) ==
  /\ \A i \in Lists :
       /\ e.f[i] = seq'[i]
       /\ e.b[i] = Rev(seq'[i])
       /\ e.n[i] = Len(seq'[i])
       /\ e.v[i] = [k \in 1..Len(seq'[i]) |-> val'[seq'[i][k]]]
  /\ e.live = Cardinality(DOMAIN val')

(* Long lists are reported in runs: start, length (consecutive nodes; for     *)
(* values: equal ones); the backward walk is reported in reverse.             *)
RECURSIVE Expand(_, _, _)
Expand(r, k, d) == IF k > Len(r) THEN <<>> ELSE [j \in 1..r[k + 1] |-> r[k] + d * (j - 1)] \o Expand(r, k + 2, d)
ObsRuns(e) ==
  /\ \A i \in Lists :
       /\ Expand(e.fr[i], 1, 1) = seq'[i]
       /\ Expand(e.br[i], 1, 1) = seq'[i]
       /\ e.n[i] = Len(seq'[i])
       /\ Expand(e.vr[i], 1, 0) = [k \in 1..Len(seq'[i]) |-> val'[seq'[i][k]]]
  /\ e.live = Cardinality(DOMAIN val')

Step(e) ==
  \/ e.op = "before" /\ RefOK(e.l, e.ref) /\ e.ret = nid /\ InsertNew(e.l, PosBefore(e.l, e.ref), e.x)
  \/ e.op = "many" /\ InsertMany(e.l, e.c, e.x)
  \/ e.op = "after"  /\ RefOK(e.l, e.ref) /\ e.ret = nid /\ InsertNew(e.l, PosAfter(e.l, e.ref), e.x)
  \/ e.op = "beforenode" /\ RefOK(e.l, e.ref) /\ e.node \in det /\ e.ret = e.node /\ InsertNode(e.l, PosBefore(e.l, e.ref), e.node)
  \/ e.op = "afternode"  /\ RefOK(e.l, e.ref) /\ e.node \in det /\ e.ret = e.node /\ InsertNode(e.l, PosAfter(e.l, e.ref), e.node)
     \* inserting a node that is linked to neighbours is refused
  \/ e.op = "reinsert" /\ e.ret = 0 /\ UNCHANGED vars
  \/ e.op = "new" /\ e.ret = nid /\ NewNode(e.x)
     \* Pop/Shift/Detach return the node taken, or 0 when there is none
  \/ e.op = "pop" /\ (IF seq[e.l] = <<>> THEN e.ret = 0 /\ UNCHANGED vars
                      ELSE e.ret = seq[e.l][Len(seq[e.l])] /\ Detach(e.l, e.ret))
  \/ e.op = "shift" /\ (IF seq[e.l] = <<>> THEN e.ret = 0 /\ UNCHANGED vars
                        ELSE e.ret = seq[e.l][1] /\ Detach(e.l, e.ret))
  \/ e.op = "detach" /\ (IF e.node = 0 THEN e.ret = 0 /\ UNCHANGED vars ELSE e.ret = 1 /\ Detach(e.l, e.node))
  \/ e.op = "remove" /\ (IF e.node = 0 THEN e.ret = 0 /\ UNCHANGED vars ELSE e.ret = 1 /\ Remove(e.l, e.node))
  \/ e.op = "free" /\ FreeNode(e.node)
  \/ e.op = "empty" /\ Empty(e.l)
  \/ e.op = "append" /\ AppendAll(e.l, e.src)
  \/ e.op = "copy" /\ Copy(e.l, e.src)
  \/ e.op = "write" /\ Write(e.node, e.x)

TInit == Init /\ TKInit
TNext == More /\ Adv /\
         \/ Ev.op # "end" /\ Step(Ev) /\ (IF "fr" \in DOMAIN Ev THEN ObsRuns(Ev) ELSE Obs(Ev))
            \* everything destroyed: no element and no byte is left behind
         \/ Ev.op = "end" /\ Ev.live = 0 /\ Ev.leak = 0 /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, tid, l>>
=============================================================================
