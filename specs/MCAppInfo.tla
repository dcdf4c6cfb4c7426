----------------------------- MODULE MCAppInfo ------------------------------
(* The joining procedure (a bounded buffer filled part by part) yields the    *)
(* ideal path or refuses, for every base, name and buffer size.               *)
EXTENDS AppInfo, TLC
CONSTANTS Abc, MaxLen, MaxSize
Strs == UNION {[1..n -> Abc] : n \in 0..MaxLen}
VARIABLES pc, size, happ, app, buf, todo
mvars == <<avars, pc, size, happ, app, buf, todo>>
Init == /\ hhome \in BOOLEAN /\ home \in Strs /\ hpw \in BOOLEAN /\ pw = <<Slash>>
        /\ pc = "start" /\ size \in 0..MaxSize /\ happ \in BOOLEAN /\ app \in Strs /\ buf = <<>> /\ todo = <<>>
Put(c) == IF Len(buf) < size THEN buf \o <<c>> ELSE buf
Start == /\ pc = "start"
         /\ IF ~HasHome \/ size <= Len(HomeDir) THEN pc' = "refused" /\ UNCHANGED <<buf, todo>>
            ELSE pc' = "slash1" /\ buf' = HomeDir /\ todo' = IF happ THEN <<Dot>> \o app ELSE <<>>
         /\ UNCHANGED <<avars, size, happ, app>>
Slash1 == pc = "slash1" /\ buf' = (IF Ends(buf) THEN buf ELSE Put(Slash)) /\ pc' = "copy" /\ UNCHANGED <<avars, size, happ, app, todo>>
Copy == /\ pc = "copy"
        /\ IF todo # <<>> THEN buf' = Put(todo[1]) /\ todo' = Tail(todo) /\ pc' = pc
           ELSE pc' = "slash2" /\ UNCHANGED <<buf, todo>>
        /\ UNCHANGED <<avars, size, happ, app>>
Slash2 == pc = "slash2" /\ buf' = (IF happ /\ ~Ends(buf) THEN Put(Slash) ELSE buf) /\ pc' = "nul" /\ UNCHANGED <<avars, size, happ, app, todo>>
Nul == /\ pc = "nul" /\ buf' = Put(0)
       /\ pc' = IF Len(buf') < size THEN "ok" ELSE "refused"
       /\ UNCHANGED <<avars, size, happ, app, todo>>
Next == Start \/ Slash1 \/ Copy \/ Slash2 \/ Nul
Spec == Init /\ [][Next]_mvars
Inside == Len(buf) <= size
Answered == pc \in {"ok", "refused"} =>
   LET ret == pc = "ok" IN
   IF HasHome THEN LET p == UserDir(happ, app) IN
        Query(TRUE, p, Len(p) + 2, size, ret, IF ret THEN Len(buf) ELSE 0, TRUE, IF ret THEN SubSeq(buf, 1, Len(buf) - 1) ELSE <<>>)
   ELSE Query(FALSE, <<>>, 0, size, ret, 0, TRUE, <<>>)
=============================================================================
