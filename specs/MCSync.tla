------------------------------ MODULE MCSync ------------------------------
(* Threads make arbitrary calls (at most Calls each) on two handles of one     *)
(* named object of kind Kind; the clock moves when nothing can happen.         *)
EXTENDS Sync
CONSTANTS Kinds, Calls, Held
Ws == {-1, 0, 2}
VARIABLES left, kind
mvars == <<svars, left, kind>>

Ops(k) == CASE k = "mutex" -> {"lock", "unlock", "unlockall"}
            [] k = "sem"   -> {"swait", "srel"}
            [] k = "event" -> {"ewait", "fire", "reset"}
            [] k = "rw"    -> {"rl", "wl", "ru", "wu"}
            [] OTHER -> {}

Init == SInit(0) /\ left = [t \in Threads |-> Calls] /\ kind \in Kinds

P1s == IF kind = "shm" THEN {4} ELSE IF kind = "event" THEN {0, 1} ELSE {1, 2}
(* handles belong to threads for creation and destruction; a handle is used   *)
(* for other operations only while nobody re-creates it *)
Mine(t, h) == h % Cardinality(Threads) = t
Stable(h) == \A u \in Threads : Busy(u) => ~(pend[u].f \in {"create", "destroy"} /\ pend[u].h = h)
Unused(h) == \A u \in Threads : ~(Busy(u) /\ pend[u].h = h)

NCall(t) == /\ left[t] > 0 /\ ~Busy(t) /\ left' = [left EXCEPT ![t] = @ - 1] /\ UNCHANGED kind
            /\ \E h \in Handles :
                 \/ /\ Mine(t, h) /\ Unused(h)
                    /\ \/ \E p1 \in P1s : Call(t, "create", h, kind, -1, FALSE, 1, p1, 0)
                       \/ Call(t, "destroy", h, kind, -1, FALSE, 0, 0, 0)
                 \/ /\ Stable(h)
                    /\ \E f \in Ops(kind) :
                         /\ f = "wu" => (at[h] # NoObj /\ ob[at[h]].wr)
                         /\ IF f \in Waits THEN \E w \in Ws : Call(t, f, h, kind, w, FALSE, 0, 0, 0) ELSE Call(t, f, h, kind, -1, FALSE, 0, 0, 0)
Stuck == \A t \in Threads : Busy(t) => (pend[t].st # Done /\ ~ENABLED Step(t))
NTime == /\ Stuck /\ ~Far
         /\ \E t \in Threads : Busy(t) /\ pend[t].w > 0 /\ pend[t].dl > now /\ Tick(pend[t].dl)
         /\ UNCHANGED <<left, kind>>
NLag == Held /\ ~Far /\ (\E t \in Threads : Busy(t)) /\ Lag(now + 1000) /\ UNCHANGED <<left, kind>>
NFar == /\ Stuck /\ ~Far /\ (\E t \in Threads : Busy(t)) /\ GoFar(CHOOSE d \in {-1} \cup {pend[t].dl : t \in Threads} : \A u \in Threads : (Busy(u) /\ pend[u].w > 0) => d # -1 /\ d <= pend[u].dl)
        /\ left' = [t \in Threads |-> 0] /\ UNCHANGED kind
Next == \/ \E t \in Threads : NCall(t)
        \/ NLag \/ NFar
        \/ \E t \in Threads : (Step(t) \/ Ret(t, TRUE, pend[t].v) \/ Ret(t, FALSE, pend[t].v)) /\ UNCHANGED <<left, kind>>
        \/ (Stuck /\ ~Far /\ Quiet /\ UNCHANGED <<left, kind>>)
        \/ NTime
Soon == now <= 4000
Spec == Init /\ [][Next]_mvars

(* Whoever is stuck has a reason. *)
Reason == (Stuck /\ ~Far) => \A t \in Threads : Busy(t) => Blocked(t)
(* However long one waits, only those who wait for ever stay. *)
AtLast == (Stuck /\ Far) => \A t \in Threads : Busy(t) => pend[t].w = -1
ZeroNeverBlocks == Stuck => \A t \in Threads : Busy(t) => pend[t].w # 0
=============================================================================
