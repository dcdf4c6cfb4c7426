----------------------------- MODULE Utf8Trace ------------------------------
EXTENDS Utf8Fast, TraceKit
LastOf(r, w) == IF r.last = 0 THEN -1 ELSE IF w = 1 THEN r.last ELSE r.last - 1
(* what a reader of a zero-terminated result sees *)
RECURSIVE UpToZero(_, _)
UpToZero(s, i) == IF i > Len(s) \/ s[i] = 0 THEN SubSeq(s, 1, i - 1) ELSE UpToZero(s, i + 1)
Long(s) == Len(s) > 300
To(s, w, cap) == IF Long(s) THEN FToUtf8(s, w, cap) ELSE ToUtf8(s, w, cap)
From(s, w, cap) == IF Long(s) THEN FFromUtf8(s, w, cap) ELSE FromUtf8(s, w, cap)
Until0(s) == IF Long(s) THEN FUpToZero(s) ELSE UpToZero(s, 1)
PointsOf(s) == IF Long(s) THEN FScan(s) ELSE Scan(s)
Step(e) ==
  \/ e.op = "to" /\ LET r == To(e.s, e.w, e.cap)
                    IN e.size = Len(r.out) /\ (e.cap # -1 => e.out = r.out) /\ e.last \in {-2, LastOf(r, e.w)}
  \/ e.op = "toalloc" /\ (IF e.w \in {1, 2, 4}
                          THEN LET r == To(e.s \o <<0>>, e.w, -1) IN e.ret /\ e.out = Until0(r.out) /\ e.last \in {-2, LastOf(r, e.w)}
                          ELSE ~e.ret)
  \/ e.op = "from" /\ (LET r == From(e.s, e.w, (IF e.null THEN -1 ELSE e.cap))
                       IN e.size = (IF e.cap = 0 THEN 0 ELSE Len(r)) /\ (~e.null => e.out = r))
  \/ e.op = "fromalloc" /\ (IF e.w \in {1, 2, 4} THEN e.ret /\ e.out = Until0(From(e.s, e.w, -1)) ELSE ~e.ret)
  \/ e.op = "strlen" /\ e.n = (IF Long(e.s) THEN FStrLen(FScan(e.s)) ELSE StrLen(e.s))
  \/ e.op = "find" /\ LET p == IF Long(e.s) THEN FFind(FScan(e.s), e.c, e.allow) ELSE FindPoint(e.s, e.c, e.allow) IN e.ret = (p # -1) /\ (e.ret => e.pos = p)
  \/ e.op = "scan" /\ LET p == PointsOf(e.s)
                      IN e.it = [k \in 1..Len(p) |-> <<p[k].cp, IF k < Len(p) THEN p[k + 1].cp ELSE 0, IF Marked(p, k) THEN 1 ELSE 0>>]
  \/ e.op = "ascii" /\ e.out = (IF Long(e.s) THEN FAscii(FScan(e.s)) ELSE AsciiOf(e.s))
  \/ e.op = "comb" /\ e.ret = Combining(e.c)
TInit == TKInit
TNext == More /\ Adv /\ Step(Ev)
TSpec == TInit /\ [][TNext]_<<tid, l>>
=============================================================================
