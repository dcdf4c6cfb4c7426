---------------------------- MODULE MCSharedLib -----------------------------
(* The lazy loader with a system reference count per library refines the     *)
(* specification: a library is in memory exactly while somebody holds it.     *)
EXTENDS SharedLib, TLC
CONSTANTS Ids, MaxOps, MaxRefs
VARIABLES refs, n        \* the system's reference counts
mvars == <<lvars, refs, n>>
Init == LInit /\ refs = [k \in 1..3 |-> 0] /\ n = 0
Bump(lib, first) == IF first /\ Exists(lib) THEN [refs EXCEPT ![lib] = @ + 1] ELSE refs
Next == /\ n < MaxOps /\ n' = n + 1
        /\ \/ \E id \in Ids, lib \in 1..3 : NewMod(id, lib) /\ refs' = refs
           \/ \E id \in Ids : DelMod(id) /\ refs' = IF id \in held THEN [refs EXCEPT ![mods[id]] = @ - 1] ELSE refs
           \/ \E id \in Ids, r \in BOOLEAN : Load(id, r) /\ refs' = Bump(mods[id], id \notin held)
           \/ \E id \in Ids, fn \in {1, 9, 10} :
                LET lib == IF id \in DOMAIN mods THEN mods[id] ELSE 3
                    ret == Exists(lib) /\ fn \in Functions(lib) IN
                Call(id, fn, <<5>>, ret, IF ret THEN Result(lib, fn, <<5>>) ELSE 0, <<>>, IF ret THEN Seen(fn, <<5>>) ELSE <<>>, TRUE)
                /\ refs' = Bump(lib, id \notin held)
           \/ \E lib \in 1..3, fn \in {1, 9, 10} :
                LET ret == Exists(lib) /\ fn \in Functions(lib) IN
                Once(lib, fn, <<5>>, ret, IF ret THEN Result(lib, fn, <<5>>) ELSE 0, <<>>, IF ret THEN Seen(fn, <<5>>) ELSE <<>>, TRUE)
                /\ refs' = [refs EXCEPT ![lib] = IF lib \in pinned' /\ @ < MaxRefs THEN @ + 1 ELSE @]
Spec == Init /\ [][Next]_mvars
Counted == \A lib \in {1, 2} : IsLoaded(lib) <=> refs[lib] > 0
Nothing == refs[3] = 0
=============================================================================
