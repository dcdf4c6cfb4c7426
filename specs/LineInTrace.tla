---------------------------- MODULE LineInTrace ----------------------------
EXTENDS LineIn, TraceKit
TInit == TKInit /\ LInit
TNext == /\ More /\ Adv
         /\ CASE Ev.op = "lopen" -> Ev.r /\ OpenText(Ev.b)
              [] Ev.op = "line" -> Ev.ok /\ Ev.live = 0 /\ NextLine(Ev.b) /\ pos' = Ev.pos
              [] Ev.op = "lseek" -> MoveTo(Ev.pos)
              [] Ev.op = "lread" -> Skip(Ev.n, Ev.b) /\ pos' = Ev.pos
              [] Ev.op = "lclosed" -> ~Ev.ok /\ UNCHANGED lvars
              [] OTHER -> FALSE
TSpec == TInit /\ [][TNext]_<<lvars, tid, l>>
=============================================================================
