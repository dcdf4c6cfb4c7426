---------------------------- MODULE PathsTrace ----------------------------
EXTENDS Paths, TraceKit
(* Names beyond the size of the internal buffers may be refused. *)
TooLong(b, n) == Len(b) + Len(n) >= 8180
TNext == /\ More /\ Adv
         /\ CASE Ev.op = "abs" -> /\ Ev.term
                                  /\ \/ LET a == Absolute(Ev.base, Ev.n, Ev.tr, Ev.cap) IN Ev.r = a.r /\ (Ev.r => Ev.out = a.out)
                                     \/ ~Ev.r /\ TooLong(Ev.base, Ev.n)
              [] Ev.op = "valid" -> Ev.v = ValidName(Ev.n) \/ (~Ev.v /\ TooLong(<<>>, Ev.n))
              [] Ev.op = "plat" -> Ev.term /\ LET a == Platform(Ev.n, Ev.cap) IN Ev.r = a.r /\ (Ev.r => Ev.out = a.out) /\ Ev.v = ValidName(Ev.n)
              [] Ev.op = "info" -> /\ Ev.vol = 0 /\ Ev.path = 0 /\ Ev.len = Len(Ev.n) /\ Ev.file = FileAt(Ev.n)
                                   /\ Ev.ext = ExtAt(Ev.n) /\ Ev.last = LastAt(Ev.n)
              [] OTHER -> FALSE
TSpec == TKInit /\ [][TNext]_<<tid, l>>
=============================================================================
