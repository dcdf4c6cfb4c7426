------------------------------ MODULE TlsAlloc ------------------------------
(* Thread-local temporary memory.  Requests are rounded up to a power of two  *)
(* (class p: 2^p bytes, at least 8).  Each thread that has joined keeps the   *)
(* freed blocks of the classes below its limit for itself and hands them out  *)
(* again; larger blocks go straight to and from the system.                   *)
(*   th[t]  : <<>> when the thread has not joined, else [lim, cache]          *)
(*   blk    : function from the ids of live blocks to [t, p, n, tag]          *)
(*            n bytes were asked for; all of them hold the value tag          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads
VARIABLES th, blk
vars == <<th, blk>>

RECURSIVE ClassFrom(_, _)
ClassFrom(n, p) == IF 2^p >= n THEN p ELSE ClassFrom(n, p + 1)
Class(n) == ClassFrom(n, 3)
Joined(t) == th[t] # <<>>
Caches(t, p) == p < th[t].lim
Cached(t, p) == th[t].cache[p]

Live == DOMAIN blk
Add(f, i, b) == [x \in (DOMAIN f) \cup {i} |-> IF x = i THEN b ELSE f[x]]
Del(f, i) == [x \in (DOMAIN f) \ {i} |-> f[x]]
Take(c, p) == IF c[p] > 0 THEN [c EXCEPT ![p] = @ - 1] ELSE c

Join(t, lim) == /\ th' = IF Joined(t) THEN th ELSE [th EXCEPT ![t] = [lim |-> lim, cache |-> [p \in 0..(lim - 1) |-> 0]]]
                /\ UNCHANGED blk
(* Leaving returns everything the thread kept. *)
Leave(t, ok) == /\ ok = Joined(t)
                /\ th' = [th EXCEPT ![t] = <<>>] /\ UNCHANGED blk

CanAlloc(t, n) == n > 0 /\ Joined(t)
CacheAfterAlloc(t, p) == IF Caches(t, p) THEN [th EXCEPT ![t].cache = Take(@, p)] ELSE th
Alloc(t, i, n, tag) == /\ CanAlloc(t, n) /\ i \notin Live
                       /\ blk' = Add(blk, i, [t |-> t, p |-> Class(n), n |-> n, tag |-> tag])
                       /\ th' = CacheAfterAlloc(t, Class(n))
AllocNothing(t, n) == ~CanAlloc(t, n) /\ UNCHANGED vars
(* the system has no memory: only possible when the request has to go there *)
AllocFails(t, n, p) == /\ CanAlloc(t, n) /\ (Caches(t, p) => Cached(t, p) = 0) /\ UNCHANGED vars

Give(f, t, p, keep) == IF keep /\ p < f[t].lim THEN [f EXCEPT ![t].cache[p] = @ + 1] ELSE f
Release(t, i, keep) == /\ i \in Live /\ blk[i].t = t /\ Joined(t)
                       /\ blk' = Del(blk, i) /\ th' = Give(th, t, blk[i].p, keep)
(* After resizing, the block `i' is known as `j' (the same address or not);   *)
(* the common prefix keeps its value and the caller then fills it with tag.   *)
Resize(t, i, n, keep, tag, moved) ==
  /\ i \in Live /\ blk[i].t = t /\ Joined(t) /\ n > 0
  /\ LET p == Class(n)  q == blk[i].p
     IN IF p <= q
        THEN ~moved /\ blk' = [blk EXCEPT ![i].n = n, ![i].tag = tag] /\ UNCHANGED th
        ELSE /\ blk' = [blk EXCEPT ![i] = [t |-> t, p |-> p, n |-> n, tag |-> tag]]
             /\ IF ~Caches(t, p) /\ ~Caches(t, q) THEN UNCHANGED th
                ELSE th' = Give(CacheAfterAlloc(t, p), t, q, keep)
(* growing fails: the old block survives *)
ResizeFails(t, i, n, p) == i \in Live /\ blk[i].t = t /\ Joined(t) /\ p > blk[i].p /\ (Caches(t, p) => Cached(t, p) = 0) /\ UNCHANGED vars

Bucket(t, p, ok, nodes) == /\ ok = (Joined(t) /\ p < th[t].lim)
                           /\ ok => nodes = th[t].cache[p]
                           /\ UNCHANGED vars
TypeOK == \A t \in Threads : Joined(t) => \A p \in DOMAIN th[t].cache : th[t].cache[p] >= 0
Owned == \A i \in Live : blk[i].n <= 2^(blk[i].p)
=============================================================================
