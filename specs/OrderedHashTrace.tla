-------------------------- MODULE OrderedHashTrace --------------------------
EXTENDS OrderedHash, TraceKit

VARIABLE uni     \* the keys looked up after every step

Obs(e) ==
  /\ \A i \in Hashes :
       /\ e.f[i] = seq'[i]
       /\ e.b[i] = Rev(seq'[i])
       /\ e.n[i] = Len(seq'[i])
       /\ e.v[i] = [k \in 1..Len(seq'[i]) |-> val'[seq'[i][k]]]
       /\ e.k[i] = [k \in 1..Len(seq'[i]) |-> key'[seq'[i][k]]]
       /\ e.fnd[i] = [u \in 1..Len(uni) |-> LET S == {n \in Range(seq'[i]) : key'[n] = uni[u]}
                                             IN IF S = {} THEN 0 ELSE CHOOSE n \in S : TRUE]
  /\ e.live = Cardinality(DOMAIN val')

Step(e) ==
  \/ e.op = "before" /\ RefOK(e.h, e.ref) /\ InsertNew(e.h, PosBefore(e.h, e.ref), e.key, e.x, e.ret)
  \/ e.op = "after"  /\ RefOK(e.h, e.ref) /\ InsertNew(e.h, PosAfter(e.h, e.ref), e.key, e.x, e.ret)
  \/ e.op = "beforenode" /\ RefOK(e.h, e.ref) /\ InsertNode(e.h, PosBefore(e.h, e.ref), e.node, e.ret)
  \/ e.op = "afternode"  /\ RefOK(e.h, e.ref) /\ InsertNode(e.h, PosAfter(e.h, e.ref), e.node, e.ret)
  \/ e.op = "reinsert" /\ e.ret = 0 /\ UNCHANGED vars
  \/ e.op = "new" /\ e.ret = nid /\ NewNode(e.key, e.x)
  \/ e.op = "setkey" /\ SetKey(e.node, e.key)
  \/ e.op = "pop" /\ (IF seq[e.h] = <<>> THEN e.ret = 0 /\ UNCHANGED vars
                      ELSE e.ret = seq[e.h][Len(seq[e.h])] /\ Detach(e.h, e.ret))
  \/ e.op = "shift" /\ (IF seq[e.h] = <<>> THEN e.ret = 0 /\ UNCHANGED vars
                        ELSE e.ret = seq[e.h][1] /\ Detach(e.h, e.ret))
  \/ e.op = "detach" /\ (IF e.node = 0 THEN e.ret = 0 /\ UNCHANGED vars ELSE e.ret = 1 /\ Detach(e.h, e.node))
  \/ e.op = "remove" /\ (IF e.node = 0 THEN e.ret = 0 /\ UNCHANGED vars ELSE e.ret = 1 /\ Remove(e.h, e.node))
  \/ e.op = "free" /\ FreeNode(e.node)
  \/ e.op = "emptydel" /\ EmptyDelete(e.h)
  \/ e.op = "emptydet" /\ EmptyDetach(e.h)
  \/ e.op = "resize" /\ Resize(e.h)
  \/ e.op = "copy" /\ Copy(e.h, e.src)
  \/ e.op = "assign" /\ Assign(e.node, e.from)
  \/ e.op = "thin" /\ Thin(e.h, e.q)
  \/ e.op = "many" /\ e.ok = 1 /\ Many(e.h, e.base, e.cnt, e.x, e.front = 1)
  \/ e.op = "write" /\ Write(e.node, e.x)

TInit == Init /\ TKInit /\ uni = <<>>
TNext == More /\ Adv /\
         \/ Ev.op = "init" /\ uni' = Ev.uni /\ UNCHANGED vars
         \/ Ev.op \notin {"init", "end"} /\ UNCHANGED uni /\ Step(Ev) /\ Obs(Ev)
         \/ Ev.op = "end" /\ Ev.live = 0 /\ Ev.leak = 0 /\ UNCHANGED <<vars, uni>>
TSpec == TInit /\ [][TNext]_<<vars, uni, tid, l>>
=============================================================================
