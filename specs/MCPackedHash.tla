--------------------------- MODULE MCPackedHash -----------------------------
EXTENDS PackedHash
\* insertion order survives everything but a copy from the other table
OrderKept == [][\A h \in Hashes : \A a, b \in KeysOf(ent[h]) :
                  (Before(ent[h], a, b) /\ Before(ent'[h], b, a)) =>
                     \E j \in Hashes \ {h} : KV(ent'[h]) = KV(ent[j])]_vars
=============================================================================
