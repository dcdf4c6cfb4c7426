----------------------------- MODULE MCTlsAlloc -----------------------------
EXTENDS TlsAlloc
CONSTANTS Ids, Sizes, Lim, MaxSys
VARIABLE sys       \* blocks obtained from the system and not yet returned to it
mvars == <<th, blk, sys>>
Init == th = [t \in Threads |-> <<>>] /\ blk = <<>> /\ sys = 0
Kept(f) == LET RECURSIVE S(_, _)
               S(T, p) == IF T = {} THEN 0 ELSE LET t == CHOOSE t \in T : TRUE
                          IN IF f[t] = <<>> \/ p = 0 THEN S(T \ {t}, Lim) ELSE f[t].cache[p - 1] + S(T, p - 1)
           IN S(Threads, Lim)
Next == /\ \/ \E t \in Threads : Join(t, Lim)
           \/ \E t \in Threads : (\A i \in Live : blk[i].t # t) /\ Leave(t, Joined(t))
           \/ \E t \in Threads, i \in Ids, n \in Sizes : Alloc(t, i, n, i)
           \/ \E t \in Threads, i \in Ids, k \in BOOLEAN : Release(t, i, k)
           \/ \E t \in Threads, i \in Ids, n \in Sizes, k, m \in BOOLEAN : Resize(t, i, n, k, i, m)
        /\ sys' = Cardinality(DOMAIN blk') + Kept(th')
Spec == Init /\ [][Next]_mvars
(* Memory is conserved: allocating from the cache does not touch the system,  *)
(* and nothing is kept for a thread that has left.                            *)
Reuse == [][\A t \in Threads, i \in Ids, n \in Sizes : (Alloc(t, i, n, i) /\ Caches(t, Class(n)) /\ Cached(t, Class(n)) > 0) => sys' = sys]_mvars
NothingLeft == ((\A t \in Threads : th[t] = <<>>) /\ Live = {}) => sys = 0
Bound == sys <= MaxSys
=============================================================================
