----------------------------- MODULE SyncTrace -----------------------------
EXTENDS Sync, TraceKit

THandles == {}
TThreads == {}

TInit == TKInit /\ SInit(0)

TNext ==
    /\ More
    /\ \/ /\ Silent /\ \E t \in DOMAIN pend : Step(t)
       \/ /\ Adv
          /\ CASE Ev.op = "begin" -> Begin(Ev.now, Ev.nh, Ev.nt)
               [] Ev.op = "call" -> IF Ev.f = "create" THEN Call(Ev.t, Ev.f, Ev.h, Ev.k, -1, Ev.fault, Ev.name, Ev.p1, Ev.p2)
                                    ELSE Call(Ev.t, Ev.f, Ev.h, Ev.k, IF Ev.f \in Waits THEN Ev.w ELSE -1, Ev.fault, 0, 0, 0)
               [] Ev.op = "ret" -> \* v = -9: not observed
                                   IF Ev.v = -9 THEN Ret(Ev.t, pend[Ev.t].res, pend[Ev.t].v) ELSE Ret(Ev.t, Ev.r, Ev.v)
               [] Ev.op = "quiet" -> Quiet
               [] Ev.op = "stop" -> Stopped(Ev.next)
               [] Ev.op = "far" -> GoFar(Ev.next)
               [] Ev.op = "farend" -> FarEnd
               [] Ev.op = "lag" -> Lag(Ev.now)
               [] Ev.op = "tick" -> Tick(Ev.now)
               [] Ev.op = "poke" -> Poke(Ev.h, Ev.o, Ev.v)
               [] Ev.op = "peek" -> Peek(Ev.h, Ev.o, Ev.v) /\ Ev.sz = ob[at[Ev.h]].size
               [] Ev.op = "end" -> AllGone /\ Ev.maps = 0 /\ Ev.fds = 0 /\ UNCHANGED svars
               [] OTHER -> FALSE

TSpec == TInit /\ [][TNext]_<<svars, tid, l>>
=============================================================================
