-------------------------- MODULE PackedHashTrace ---------------------------
EXTENDS PackedHash, TraceKit
VARIABLE uni

(* entries as observed by a forward walk of table h *)
Seen(e, h) == [i \in 1..Len(e.k[h]) |-> [k |-> e.k[h][i], v |-> e.v[h][i], p |-> e.p[h][i]]]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

Obs(e) ==
  /\ \A h \in Hashes :
       /\ Len(e.v[h]) = Len(e.k[h]) /\ Len(e.p[h]) = Len(e.k[h])
       /\ Seen(e, h) = ent'[h]
       /\ e.bp[h] = Rev([i \in 1..Len(ent'[h]) |-> ent'[h][i].p])      \* backward walk
       \* a walk that came to its end starts over: after Next, Prev to the end: Next, then Prev
       /\ LET first == IF ent'[h] = <<>> THEN -1 ELSE ent'[h][1].p  last == IF ent'[h] = <<>> THEN -1 ELSE ent'[h][Len(ent'[h])].p IN
            e.tn[h] = <<first, first, last, last>>
       /\ e.n[h] = Len(ent'[h])
       /\ e.nxt[h] = nxt'[h]
       /\ e.fv[h] = [u \in 1..Len(uni) |-> LET i == Idx(ent'[h], uni[u]) IN IF i = 0 THEN -1 ELSE ent'[h][i].v]
       /\ e.fp[h] = [u \in 1..Len(uni) |-> LET i == Idx(ent'[h], uni[u]) IN IF i = 0 THEN -1 ELSE ent'[h][i].p]
       \* index based access and walks from there; only the positions up to the last probed one and the next matter
       /\ LET P == Lives(h)'  c == Below(P, Len(e.gp[h]) + 1)  L == SubSeq(P, 1, IF c < Len(P) THEN c + 1 ELSE c)
              S == {L[i] : i \in 1..Len(L)} IN
            /\ e.gp[h] = [p \in 1..Len(e.gp[h]) |-> IF p - 1 \in S THEN p - 1 ELSE -1]
            /\ e.np[h] = [p \in 1..Len(e.gp[h]) |-> NextFrom(L, nxt'[h], p - 1)]
            /\ e.pp[h] = [p \in 1..Len(e.gp[h]) |-> PrevFrom(L, nxt'[h], p - 1)]
  /\ e.live = Len(ent'[1]) + Len(ent'[2])

Step(e) ==
  \/ e.op = "set" /\ (SetOld(e.h, e.key, e.x) \/ SetNew(e.h, e.key, e.x, Seen(e, e.h), e.nxt[e.h]))
     \* Set without a value leaves an existing value alone, default-constructs a new one
  \/ e.op = "touch" /\ (IF Idx(ent[e.h], e.key) # 0 THEN UNCHANGED vars ELSE SetNew(e.h, e.key, 0, Seen(e, e.h), e.nxt[e.h]))
  \/ e.op = "unset" /\ Unset(e.h, e.key, e.ret)
  \/ e.op = "setmany" /\ e.ok = 1 /\ SetMany(e.h, e.base, e.cnt, e.x, Seen(e, e.h), e.nxt[e.h])
  \/ e.op = "thin" /\ e.ok = 1 /\ Thin(e.h, e.q, e.back = 1)
  \/ e.op = "optimize" /\ Optimize(e.h)
  \/ e.op = "resize" /\ Move(e.h, Seen(e, e.h), e.nxt[e.h])
  \/ e.op = "copy" /\ (IF e.h = e.src THEN UNCHANGED vars ELSE Copy(e.h, e.src, Seen(e, e.h), e.nxt[e.h]))

TInit == Init /\ TKInit /\ uni = <<>>
TNext == More /\ Adv /\
         \/ Ev.op = "init" /\ uni' = Ev.uni /\ UNCHANGED vars
         \/ Ev.op \notin {"init", "end"} /\ UNCHANGED uni /\ Step(Ev) /\ Obs(Ev)
         \/ Ev.op = "end" /\ Ev.live = 0 /\ Ev.leak = 0 /\ UNCHANGED <<vars, uni>>
TSpec == TInit /\ [][TNext]_<<vars, uni, tid, l>>
=============================================================================
