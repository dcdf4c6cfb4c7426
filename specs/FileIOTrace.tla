---------------------------- MODULE FileIOTrace ----------------------------
EXTENDS FileIO, TraceKit, Limbs

(* One big sparse file: its size, the position, the size as the handle knows   *)
(* it and the bytes that were written (everything else is zero).               *)
VARIABLE big
vars == <<fvars, big, tid, l>>
TInit == TKInit /\ FInit /\ big = [size |-> LZero, pos |-> LZero, max |-> LZero, w |-> << >>]

BByte(p) == IF p \in DOMAIN big.w THEN big.w[p] ELSE 0
BTarget(w, p) == CASE w = 0 -> LMin(p, big.max)
                   [] w = 1 -> IF Le(p, big.max) THEN Sub(big.max, p) ELSE LZero
                   [] w = 2 -> IF Le(big.pos, big.max) /\ Le(p, Sub(big.max, big.pos)) THEN Add(big.pos, p) ELSE big.max
                   [] OTHER -> IF Le(p, big.pos) THEN Sub(big.pos, p) ELSE LZero
BPut(b) == LET D == {Add(big.pos, LOf(k - 1)) : k \in 1..Len(b)}
           IN [p \in D |-> b[Sub(p, big.pos)[1] + 1]] @@ big.w
BAvail == Sub(big.size, big.pos)

HS(h) == hd'[h].o => Ev.pos = hd'[h].pos /\ Ev.max = hd'[h].max
Big == big'.pos = Ev.pos /\ big'.max = Ev.max

TNext ==
    /\ More /\ Adv
    /\ CASE Ev.op = "init" -> /\ IF Ev.x THEN NewFile(Ev.n, Ev.b, Ev.pm) ELSE UNCHANGED <<dir, data, perm>>
                              /\ UNCHANGED <<hd, big>>
         [] Ev.op = "open" -> /\ Open(Ev.h, Ev.n, Ev.acc, Ev.cr, Ev.ex, Ev.tr, Ev.app, Ev.sh = 0, Ev.mode, Ev.mask, Ev.r)
                              /\ Ev.io = Ev.r /\ HS(Ev.h) /\ UNCHANGED big
         [] Ev.op = "read" -> /\ Read(Ev.h, Ev.n, Ev.r, Ev.b, Ev.hard, Ev.short) /\ (hd[Ev.h].o /\ hd[Ev.h].rd => Ev.got = Len(Ev.b))
                              /\ HS(Ev.h) /\ UNCHANGED big
         [] Ev.op = "write" -> Write(Ev.h, Ev.b, Ev.r, IF hd[Ev.h].o /\ hd[Ev.h].wr THEN Ev.got ELSE 0, Ev.hard) /\ HS(Ev.h) /\ UNCHANGED big
         [] Ev.op = "seek" -> Seek(Ev.h, Ev.w, Ev.p, Ev.r, Ev.hard) /\ HS(Ev.h) /\ UNCHANGED big
         [] Ev.op = "upd" -> Refresh(Ev.h, Ev.r) /\ (Ev.r => Ev.max = hd'[Ev.h].max) /\ UNCHANGED big
         [] Ev.op = "flush" -> Flush(Ev.h, Ev.r) /\ UNCHANGED big
         [] Ev.op = "close" -> Ev.r /\ ~Ev.io /\ Close(Ev.h) /\ UNCHANGED big
         [] Ev.op = "fresh" -> ~Ev.io /\ ~Ev.rd /\ ~Ev.wr /\ ~Ev.sk /\ ~Ev.up /\ Ev.keep /\ UNCHANGED <<fvars, big>>
         [] Ev.op = "delete" -> Delete(Ev.n, Ev.r) /\ UNCHANGED big
         [] Ev.op = "disk" -> OnDisk(Ev.n, Ev.x, Ev.b, Ev.pm) /\ UNCHANGED <<fvars, big>>
         [] Ev.op = "end" -> Ev.fds = 0 /\ UNCHANGED <<fvars, big>>
         [] Ev.op = "bcopy" -> Ev.ax /\ (Ev.r => Ev.bx) /\ CopyOk(Ev.a, Ev.r, Ev.a2, Ev.b2, Ev.hard) /\ UNCHANGED <<fvars, big>>
         [] Ev.op = "bmove" -> (Ev.r => Ev.bx) /\ MoveOk(Ev.a, Ev.r, Ev.ax, Ev.a2, Ev.b2, Ev.hard) /\ UNCHANGED <<fvars, big>>
         [] Ev.op = "bload" -> /\ Ev.live = 0 /\ LoadOk(Ev.a, Ev.r, Ev.res, Ev.hard, Ev.short) /\ (~Ev.r => Ev.nul /\ Ev.n = 0) /\ UNCHANGED <<fvars, big>>
         [] Ev.op = "bpipe" -> /\ Ev.whole /\ Ev.full /\ PipeOk(Ev.a, Ev.r, Ev.at, Ev.disk, Ev.back, Ev.res, Ev.hard) /\ Ev.pos = Ev.at /\ Ev.max = Ev.at /\ UNCHANGED <<fvars, big>>
         [] Ev.op = "bopen" -> /\ Ev.r /\ big' = [size |-> Ev.size, pos |-> LZero, max |-> Ev.size, w |-> << >>] /\ Big /\ UNCHANGED fvars
         [] Ev.op = "bseek" -> /\ Ev.r /\ big' = [big EXCEPT !.pos = BTarget(Ev.w, Ev.p)] /\ Big /\ UNCHANGED fvars
         [] Ev.op = "bwrite" -> /\ Ev.r /\ Ev.got = Len(Ev.b)
                                /\ LET q == Add(big.pos, LOf(Len(Ev.b)))
                                   IN big' = [big EXCEPT !.pos = q, !.size = LMax(@, q), !.max = LMax(@, q), !.w = BPut(Ev.b)]
                                /\ Big /\ UNCHANGED fvars
         [] Ev.op = "bread" -> /\ Ev.r /\ Ev.got = Len(Ev.b)
                               /\ LOf(Len(Ev.b)) = LMin(LOf(Ev.n), BAvail)
                               /\ \A k \in 1..Len(Ev.b) : Ev.b[k] = BByte(Add(big.pos, LOf(k - 1)))
                               /\ big' = [big EXCEPT !.pos = Add(@, LOf(Len(Ev.b)))] /\ Big /\ UNCHANGED fvars
         [] Ev.op = "bsize" -> Ev.size = big.size /\ UNCHANGED <<fvars, big>>
         [] OTHER -> FALSE

TSpec == TInit /\ [][TNext]_vars
=============================================================================
