--------------------------- MODULE MixedVarTrace ----------------------------
EXTENDS MixedVar, TraceKit
R == INSTANCE Replace WITH Alpha <- {}, MaxData <- 0, MaxPat <- 0, pat <- <<>>, data <- <<>>, pos <- 0, active <- FALSE, hit <- 0, out <- <<>>, src <- 0, cap <- 0, full <- FALSE
Step(e) ==
  \/ e.op = "new" /\ New(e.v, e.cap)
  \/ e.op = "setbool" /\ SetBool(e.v, e.b)
  \/ e.op = "setint" /\ SetInt(e.v, e.w)
  \/ e.op = "setuint" /\ SetUInt(e.v, e.w)
  \/ e.op = "setdbl" /\ SetDouble(e.v, e.w)
  \/ e.op = "setstr" /\ SetStr(e.v, e.a)
  \/ e.op = "append" /\ AppendText(e.v, e.a)
  \/ e.op = "prepend" /\ PrependText(e.v, e.a)
  \/ e.op = "appint" /\ AppendInt(e.v, e.w, e.sg, e.r)
  \/ e.op = "preint" /\ PrependInt(e.v, e.w, e.sg, e.r)
  \/ e.op = "missing" /\ AppendMissing(e.v, e.c)
  \/ e.op = "trail" /\ RemoveTrailing(e.v, e.c, e.ret)
  \/ e.op = "size" /\ SetSize(e.v, e.n, e.s)
  \/ e.op = "assign" /\ Assign(e.v, e.from)
  \/ e.op = "replace" /\ e.num = R!Count(mv[e.v].str, e.p, 1, -1, 0) /\ Replaced(e.v, R!All(mv[e.v].str, e.p, e.a, 1, <<>>, -1, 0))
  \/ e.op = "look" /\ UNCHANGED mv
  \/ e.op = "end" /\ e.leak = 0 /\ UNCHANGED mv
  \/ e.op = "itoa" /\ (e.ok = Fits(Text(e.w, e.sg, e.r, 0), e.n)) /\ (e.ok => e.a = Text(e.w, e.sg, e.r, 0)) /\ UNCHANGED mv
(* What the caller reads back after every operation. *)
Reads(e) == IF e.op \in {"end", "itoa"} THEN TRUE
            ELSE LET n == mv'[e.v] IN e.m = n.mode /\ e.i = n.int /\ e.d = n.dbl /\ e.s = n.str /\ e.nul
TInit == TKInit /\ mv = [v \in Vars |-> Blank(0)]
TNext == More /\ Adv /\ Step(Ev) /\ Reads(Ev)
TSpec == TInit /\ [][TNext]_<<mv, tid, l>>
=============================================================================
