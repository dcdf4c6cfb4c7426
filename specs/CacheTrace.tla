----------------------------- MODULE CacheTrace -----------------------------
EXTENDS Cache, TraceKit

(* 64-bit hash value as four 16-bit limbs, least significant first *)
Mod(w, n) == LET Dig(r, d) == ((r * 256) + d) % n      \* byte by byte: n < 2^22
                 Two(r, x) == Dig(Dig(r, x \div 256), x % 256)
             IN Two(Two(Two(Two(0, w[4]), w[3]), w[2]), w[1])
S(e) == Mod(e.hash, size[e.c])

(* the used slots, in ascending order *)
Used(c, u) == /\ {u[i] : i \in DOMAIN u} = DOMAIN slot'[c] /\ Len(u) = Cardinality(DOMAIN slot'[c])
Obs(e) == \A c \in Caches : e.size[c] = size'[c] /\ Used(c, e.used[c])

Step(e) ==
  \/ e.op = "new" /\ New(e.c, e.n)
  \/ e.op = "insert" /\ Insert(e.c, S(e), e.key, e.x)
  \/ e.op = "remove" /\ Remove(e.c, S(e), e.key, e.ret)
  \/ e.op = "find" /\ Find(e.c, S(e), e.key, e.ret, e.x)
  \/ e.op = "exists" /\ Exists(e.c, S(e), e.key, e.ret)
  \/ e.op = "empty" /\ Empty(e.c)
  \/ e.op = "copy" /\ Copy(e.c, e.src)
     \* the hash helpers are functions of the key bytes only
  \/ e.op = "hash" /\ e.a = e.b /\ UNCHANGED vars

TInit == size = [c \in Caches |-> 1] /\ slot = [c \in Caches |-> <<>>] /\ TKInit
TNext == More /\ Adv /\
         \/ Ev.op # "end" /\ Step(Ev) /\ Obs(Ev)
         \/ Ev.op = "end" /\ Ev.live = 0 /\ Ev.leak = 0 /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, tid, l>>
=============================================================================
