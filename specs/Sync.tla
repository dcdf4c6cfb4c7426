-------------------------------- MODULE Sync --------------------------------
(* The synchronisation objects as their users see them: mutexes, semaphores,   *)
(* events, reader/writer locks and shared memory, unnamed or named (shared     *)
(* between processes by name), used by threads through handles.  An operation  *)
(* is a call, one or more silent steps in which it takes effect, and a return. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS Threads, Handles

VARIABLES ob,      \* object identifier -> state of the object
          at,      \* handle -> identifier of the object it is attached to
          own,     \* mutex handle -> [t, d]: the owning thread and the depth
          pend,    \* thread -> the call it is in
          now      \* microseconds

svars == <<ob, at, own, pend, now>>

NoObj  == <<"none", 0, 0>>
NoOwn  == [t |-> -1, d |-> 0]
Idle   == [f |-> "idle", h |-> 0, k |-> "", w |-> 0, dl |-> 0, flt |-> FALSE, name |-> 0, p1 |-> 0, p2 |-> 0,
           st |-> 0, res |-> FALSE, v |-> -1, fo |-> FALSE, lag |-> 0]
Done   == 9
Tol(k) == IF k = "rw" THEN 1000 ELSE 0        \* reader/writer locks count whole milliseconds

(* -1: for ever; -2: about 49 days; otherwise milliseconds *)
Deadline(w) == IF w > 0 THEN now + w * 1000 ELSE -1
Far == now = -1                               \* so late that every limited wait is over

Fresh(k, p1, p2) ==
    [refs |-> 1,
     n    |-> IF k = "mutex" THEN 1 ELSE IF k = "sem" THEN p1 ELSE 0,
     max  |-> IF k = "mutex" THEN 1 ELSE IF k = "sem" THEN p1 ELSE 0,
     man  |-> k = "event" /\ p1 # 0,
     sig  |-> k = "event" /\ p2 # 0,
     rd   |-> 0, wr |-> FALSE, q |-> {},
     size |-> IF k = "shm" THEN p1 ELSE 0, mem |-> << >>]      \* the bytes that were written; the others are zero

Oid(h, p) == IF p.name = 0 THEN <<p.k, 0 - h, 0>> ELSE <<p.k, p.name, IF p.k = "shm" THEN p.p1 ELSE 0>>

SInit(t0) == /\ ob = << >> /\ now = t0
             /\ at = [h \in Handles |-> NoObj] /\ own = [h \in Handles |-> NoOwn]
             /\ pend = [t \in Threads |-> Idle]

(* A program with handles 1..nh and threads 0..nt-1 begins. *)
Begin(t0, nh, nt) == /\ t0 >= 0 /\ now' = t0 /\ ob' = << >>
                     /\ at' = [h \in 1..nh |-> NoObj] /\ own' = [h \in 1..nh |-> NoOwn]
                     /\ pend' = [t \in 0..(nt - 1) |-> Idle]

Busy(t)   == pend[t].f # "idle"
On(t)     == at[pend[t].h]
Same(o)   == {t \in DOMAIN pend : Busy(t) /\ o # NoObj /\ On(t) = o}

(* Can this operation take effect right now? (attached handles only) *)
Avail(t, f, h) ==
    LET o == ob[at[h]] IN
    CASE f = "lock"  -> o.n > 0 \/ own[h].t = t
      [] f = "swait" -> o.n > 0
      [] f = "ewait" -> o.sig
      [] f = "rl"    -> ~o.wr /\ o.q = {}
      [] f = "wl"    -> ~o.wr /\ o.rd = 0
      [] OTHER -> TRUE

Call(t, f, h, k, w, flt, name, p1, p2) ==
    /\ ~Busy(t)
    /\ LET S == Same(at[h])
           p == [f |-> f, h |-> h, k |-> k, w |-> w, dl |-> Deadline(w), flt |-> flt, name |-> name, p1 |-> p1, p2 |-> p2,
                 st |-> 0, res |-> FALSE, v |-> -1, lag |-> 0,
                 fo |-> S # {} \/ (at[h] # NoObj /\ ~Avail(t, f, h))]
       IN pend' = [u \in DOMAIN pend |-> IF u = t THEN p ELSE IF u \in S /\ pend[u].w = 0 THEN [pend[u] EXCEPT !.fo = TRUE] ELSE pend[u]]
    /\ UNCHANGED <<ob, at, own, now>>

Finish(t, r, v) == pend' = [pend EXCEPT ![t].st = Done, ![t].res = r, ![t].v = v]

Waits == {"lock", "swait", "ewait", "rl", "wl"}

(* The operation succeeds. *)
Take(t) ==
    LET p == pend[t] h == p.h x == at[h] IN
    /\ p.f \in Waits /\ p.st = 0 /\ x # NoObj /\ Avail(t, p.f, h)
    /\ Finish(t, TRUE, -1)
    /\ CASE p.f = "lock" /\ own[h].t = t -> own' = [own EXCEPT ![h].d = @ + 1] /\ UNCHANGED ob
         [] p.f = "lock" /\ own[h].t # t -> ob' = [ob EXCEPT ![x].n = 0] /\ own' = [own EXCEPT ![h] = [t |-> t, d |-> 1]]
         [] p.f = "swait" -> ob' = [ob EXCEPT ![x].n = @ - 1] /\ UNCHANGED own
         [] p.f = "ewait" -> ob' = [ob EXCEPT ![x].sig = ob[x].man] /\ UNCHANGED own
         [] p.f = "rl"    -> ob' = [ob EXCEPT ![x].rd = @ + 1] /\ UNCHANGED own
         [] p.f = "wl"    -> ob' = [ob EXCEPT ![x].wr = TRUE, ![x].q = {}] /\ UNCHANGED own
    /\ UNCHANGED <<at, now>>

(* A wait may fail: without waiting, only if the object was taken or in use at  *)
(* some moment of the call; with a limit, only when the limit is reached (or    *)
(* the clock cannot be read); without limit, never.                             *)
GiveUp(t) ==
    LET p == pend[t] x == at[p.h] IN
    /\ p.f \in Waits /\ p.st = 0
    /\ \/ x = NoObj
       \/ x # NoObj /\ p.w = 0 /\ p.fo
       \/ x # NoObj /\ p.w > 0 /\ (p.flt \/ Far \/ now >= p.dl - Tol(p.k))
       \/ x # NoObj /\ p.w = -2 /\ (p.flt \/ Far)
    /\ Finish(t, FALSE, -1)
    /\ ob' = IF p.f = "wl" /\ x # NoObj THEN [ob EXCEPT ![x].q = {}] ELSE ob
    /\ UNCHANGED <<at, own, now>>

(* Operations that never wait. *)
Act(t) ==
    LET p == pend[t] h == p.h x == at[h] IN
    /\ p.f \in {"unlock", "unlockall", "srel", "fire", "reset", "ru", "wu"} /\ p.st = 0
    /\ UNCHANGED <<at, now>>
    /\ IF x = NoObj THEN Finish(t, FALSE, -1) /\ UNCHANGED <<ob, own>>
       ELSE CASE p.f \in {"unlock", "unlockall"} ->
                   IF own[h].t # t THEN Finish(t, FALSE, -1) /\ UNCHANGED <<ob, own>>
                   ELSE /\ Finish(t, TRUE, -1)
                        /\ IF p.f = "unlock" /\ own[h].d > 1 THEN own' = [own EXCEPT ![h].d = @ - 1] /\ UNCHANGED ob
                           ELSE own' = [own EXCEPT ![h] = NoOwn] /\ ob' = [ob EXCEPT ![x].n = 1]
              [] p.f = "srel" -> /\ Finish(t, TRUE, ob[x].n)
                                 /\ ob' = [ob EXCEPT ![x].n = IF @ < ob[x].max THEN @ + 1 ELSE ob[x].max] /\ UNCHANGED own
              [] p.f = "fire" -> Finish(t, TRUE, -1) /\ ob' = [ob EXCEPT ![x].sig = TRUE] /\ UNCHANGED own
              [] p.f = "reset" -> IF ob[x].man THEN Finish(t, TRUE, -1) /\ ob' = [ob EXCEPT ![x].sig = FALSE] /\ UNCHANGED own
                                               ELSE Finish(t, FALSE, -1) /\ UNCHANGED <<ob, own>>
              [] p.f = "ru" -> IF ob[x].rd = 0 THEN Finish(t, FALSE, -1) /\ UNCHANGED <<ob, own>>
                               ELSE Finish(t, TRUE, -1) /\ ob' = [ob EXCEPT ![x].rd = @ - 1] /\ UNCHANGED own
              [] p.f = "wu" -> Finish(t, TRUE, -1) /\ ob' = [ob EXCEPT ![x].wr = FALSE] /\ UNCHANGED own

(* Create and destroy: give up what the caller owns, detach, attach. *)
Release(t) ==
    LET p == pend[t] h == p.h IN
    /\ p.f \in {"create", "destroy"} /\ p.st = 0
    /\ UNCHANGED <<at, now>>
    /\ IF p.f = "create" /\ own[h].t \notin {-1, t}
       THEN Finish(t, FALSE, -1) /\ UNCHANGED <<ob, own>>
       ELSE /\ pend' = [pend EXCEPT ![t].st = 1]
            /\ IF own[h].t = t THEN own' = [own EXCEPT ![h] = NoOwn] /\ ob' = [ob EXCEPT ![at[h]].n = 1]
               ELSE own' = [own EXCEPT ![h] = NoOwn] /\ UNCHANGED ob

Detach(t) ==
    LET p == pend[t] h == p.h x == at[h] IN
    /\ p.f \in {"create", "destroy"} /\ p.st = 1
    /\ IF p.f = "destroy" THEN Finish(t, TRUE, -1) ELSE pend' = [pend EXCEPT ![t].st = 2]
    /\ at' = [at EXCEPT ![h] = NoObj]
    /\ ob' = IF x = NoObj THEN ob ELSE [ob EXCEPT ![x].refs = @ - 1]
    /\ UNCHANGED <<own, now>>

Attach(t) ==
    LET p == pend[t] h == p.h x == Oid(h, p) new == x \notin DOMAIN ob \/ (x \in DOMAIN ob /\ ob[x].refs = 0) IN
    /\ p.f = "create" /\ p.st = 2
    /\ UNCHANGED <<own, now>>
    /\ IF p.flt /\ p.name # 0
       THEN Finish(t, FALSE, IF p.k = "shm" THEN 0 ELSE -1) /\ UNCHANGED <<at, ob>>
       ELSE /\ at' = [at EXCEPT ![h] = x]
            /\ ob' = IF new THEN (x :> Fresh(p.k, p.p1, p.p2)) @@ ob ELSE [ob EXCEPT ![x].refs = @ + 1]
            /\ Finish(t, TRUE, IF p.k = "shm" THEN (IF new THEN 1 ELSE 0) ELSE -1)

Step(t) == Take(t) \/ GiveUp(t) \/ Act(t) \/ Release(t) \/ Detach(t) \/ Attach(t)

Ret(t, r, v) == /\ Busy(t) /\ pend[t].st = Done /\ pend[t].res = r /\ pend[t].v = v
                /\ pend' = [pend EXCEPT ![t] = Idle]
                /\ UNCHANGED <<ob, at, own, now>>

(* Nothing can run at this time: every thread that is inside a call has a      *)
(* reason to be.  This is where lost wakeups and late timeouts show.           *)
Blocked(t) ==
    LET p == pend[t] x == at[p.h] IN
    /\ p.f \in Waits /\ p.st = 0 /\ p.w # 0 /\ x # NoObj
    /\ p.w > 0 => now < p.dl + Tol(p.k) + p.lag
    /\ CASE p.f = "rl" -> ob[x].wr \/ \E u \in Same(x) : pend[u].f = "wl"
         [] OTHER -> ~Avail(t, p.f, p.h)

(* A writer that waits only for readers to leave is not overtaken by readers   *)
(* that arrive later.                                                          *)
Queue == ob' = [x \in DOMAIN ob |-> IF x[1] # "rw" THEN ob[x]
                                    ELSE [ob[x] EXCEPT !.q = IF ob[x].wr THEN {} ELSE {t \in Same(x) : pend[t].f = "wl"}]]

Quiet == /\ \A t \in DOMAIN pend : Busy(t) => Blocked(t) \/ (pend[t].f = "create" /\ pend[t].st # Done)
         /\ Queue /\ UNCHANGED <<at, own, pend, now>>

(* The observation ends: nothing happens before the time next (-1: ever).      *)
Ends(t, next) == pend[t].w > 0 => next # -1 /\ next <= pend[t].dl + Tol(pend[t].k) + pend[t].lag
Stopped(next) == /\ \A t \in DOMAIN pend : Busy(t) => Blocked(t) /\ Ends(t, next) /\ (next = -1 => pend[t].w # -2)
                 /\ UNCHANGED svars

(* ... and all the time in the world passes; then only unlimited waits remain. *)
GoFar(next) == /\ ~Far /\ \A t \in DOMAIN pend : Busy(t) => Blocked(t) /\ Ends(t, next)
               /\ now' = -1 /\ UNCHANGED <<ob, at, own, pend>>
FarEnd == /\ Far /\ \A t \in DOMAIN pend : Busy(t) => pend[t].w = -1 /\ Blocked(t)
          /\ UNCHANGED svars

(* The clock moves while somebody is held up in the middle of a call. *)
Lag(n) == /\ ~Far /\ n >= now /\ now' = n /\ UNCHANGED <<ob, at, own>>
          /\ pend' = [t \in DOMAIN pend |-> IF Busy(t) THEN [pend[t] EXCEPT !.lag = @ + (n - now)] ELSE pend[t]]

Tick(n) == n > now /\ now' = n /\ UNCHANGED <<ob, at, own, pend>>

Poke(h, i, v) == /\ at[h] # NoObj /\ i \in 1..ob[at[h]].size
                 /\ ob' = [ob EXCEPT ![at[h]].mem = (i :> v) @@ @] /\ UNCHANGED <<at, own, pend, now>>
Byte(o, i) == IF i \in DOMAIN o.mem THEN o.mem[i] ELSE 0
Peek(h, i, v) == /\ at[h] # NoObj /\ i \in 1..ob[at[h]].size /\ Byte(ob[at[h]], i) = v
                 /\ UNCHANGED svars

AllGone == \A h \in DOMAIN at : at[h] = NoObj
-----------------------------------------------------------------------------
Owners(x)  == {h \in DOMAIN at : at[h] = x /\ own[h].t # -1}
Exclusion  == \A x \in DOMAIN ob : x[1] = "mutex" /\ ob[x].refs > 0 => Cardinality(Owners(x)) <= 1 /\ (Owners(x) # {} => ob[x].n = 0)
Bounded    == \A x \in DOMAIN ob : x[1] = "sem" => ob[x].n \in 0..ob[x].max
RWExcl     == \A x \in DOMAIN ob : ob[x].wr => ob[x].rd = 0
RefsRight  == \A x \in DOMAIN ob : ob[x].refs = Cardinality({h \in DOMAIN at : at[h] = x})
Attached   == \A h \in DOMAIN at : at[h] # NoObj => at[h] \in DOMAIN ob
=============================================================================
