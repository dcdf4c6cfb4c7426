---------------------------- MODULE VectorTrace -----------------------------
EXTENDS Vector, TraceKit
(* long contents are given as runs <<value, last index>> *)
RECURSIVE RunOf(_, _, _, _)
RunOf(q, i, a, b) == IF a = b THEN q[a][1] ELSE LET m == (a + b) \div 2 IN IF i <= q[m][2] THEN RunOf(q, i, a, m) ELSE RunOf(q, i, m + 1, b)
Spread(q) == IF q = <<>> THEN <<>> ELSE [i \in 1..q[Len(q)][2] |-> RunOf(q, i, 1, Len(q))]
SameRuns(q, c) == /\ IF q = <<>> THEN c = <<>> ELSE q[Len(q)][2] = Len(c)
                  /\ \A k \in 1..Len(q) : \A i \in (IF k = 1 THEN 1 ELSE q[k - 1][2] + 1)..q[k][2] : c[i] = q[k][1]
Long(e) == "cr" \in DOMAIN e
Obs(e) == IF Long(e) THEN \A v \in Vecs : e.w[v] = w'[v] /\ e.h[v] = h'[v] /\ SameRuns(e.cr[v], cell'[v]) = TRUE /\ e.rr[v] = e.cr[v] ELSE \A v \in Vecs : e.w[v] = w'[v] /\ e.h[v] = h'[v] /\ e.c[v] = cell'[v] /\ e.raw[v] = cell'[v]
Step(e) ==
  \/ e.op = "new" /\ New(e.v, e.nw, e.nh, e.cells)
  \/ e.op = "newr" /\ New(e.v, e.nw, e.nh, Spread(e.cells))
  \/ e.op = "write" /\ Write(e.v, e.x, e.y, e.val)
  \/ e.op = "copy" /\ Copy(e.v, e.src)
  \/ e.op = "cmp" /\ Compare(e.v, e.src, e.eq, e.ne)
TInit == Init /\ TKInit
TNext == More /\ Adv /\
         \/ Ev.op # "end" /\ Step(Ev) /\ Obs(Ev)
         \/ Ev.op = "end" /\ Ev.live = 0 /\ Ev.leak = 0 /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, tid, l>>
=============================================================================
