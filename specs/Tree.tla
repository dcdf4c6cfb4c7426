-------------------------------- MODULE Tree --------------------------------
(* A directory tree: path (sequence of names; the root is <<>> and not listed) *)
(* -> node.  Kinds: 1 directory, 2 file, 3 symbolic link (to an absolute path).*)
(* lk: 0 nobody has the file open, 1 open shared, 2 open exclusively.          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLE fs

Nowhere == <<0>>
Node(k, m, c) == [k |-> k, m |-> m, c |-> c, mt |-> -1, mu |-> -1, lk |-> 0]
Umask(m) == LET g == (m \div 8) % 8 o == m % 8 u == (m \div 64) % 8        \* 022
                W(x) == IF (x \div 2) % 2 = 1 THEN x - 2 ELSE x
            IN u * 64 + W(g) * 8 + W(o)
Has(p)   == p \in DOMAIN fs
IsDir(p) == p = <<>> \/ (Has(p) /\ fs[p].k = 1)
IsFile(p) == Has(p) /\ fs[p].k = 2
IsLink(p) == Has(p) /\ fs[p].k = 3
DirOf(p) == SubSeq(p, 1, Len(p) - 1)
Under(p, q) == Len(q) > Len(p) /\ SubSeq(q, 1, Len(p)) = p
Kids(p)  == {q \in DOMAIN fs : Len(q) = Len(p) + 1 /\ SubSeq(q, 1, Len(p)) = p}

(* Where a name leads: links are followed, the last one only on request. The   *)
(* result may be a place where nothing exists yet, in an existing directory.   *)
RECURSIVE Go(_, _, _, _)
Go(done, rest, last, fuel) ==
    IF rest = <<>> THEN done
    ELSE LET p == done \o <<Head(rest)>> more == Tail(rest) # <<>> IN
         IF ~Has(p) THEN (IF more THEN Nowhere ELSE p)
         ELSE IF IsLink(p) /\ (more \/ last)
              THEN (IF fuel = 0 THEN Nowhere ELSE Go(<<>>, fs[p].c \o Tail(rest), last, fuel - 1))
         ELSE IF more /\ ~IsDir(p) THEN Nowhere
         ELSE Go(p, Tail(rest), last, fuel)
At(p)   == Go(<<>>, p, FALSE, 40)
Into(p) == Go(<<>>, p, TRUE, 40)

Readable(x) == (fs[x].m \div 256) % 2 = 1
Writable(x) == (fs[x].m \div 128) % 2 = 1

(* Entries come and go only in a directory its owner may write to. *)
Open(f, d) == IF d = <<>> THEN TRUE ELSE (f[d].m \div 128) % 2 = 1
MayEdit(x) == IF x = <<>> THEN TRUE ELSE Open(fs, DirOf(x))

Without(S) == [q \in DOMAIN fs \ S |-> fs[q]]
Same(r) == ~r /\ UNCHANGED fs

TInit0 == fs = << >>

CanMk(p) == At(p) # Nowhere /\ At(p) # <<>> /\ ~Has(At(p)) /\ MayEdit(At(p))
RECURSIVE Levels(_, _, _, _)
(* the tree after trying to create the first k.. levels of p, one after another *)
GoIn(f, p) == LET RECURSIVE G(_, _, _)
                  G(done, rest, fuel) ==
                    IF rest = <<>> THEN done
                    ELSE LET x == done \o <<Head(rest)>> more == Tail(rest) # <<>> IN
                         IF x \notin DOMAIN f THEN (IF more THEN Nowhere ELSE x)
                         ELSE IF f[x].k = 3 /\ more THEN (IF fuel = 0 THEN Nowhere ELSE G(<<>>, f[x].c \o Tail(rest), fuel - 1))
                         ELSE IF more /\ f[x].k # 1 THEN Nowhere
                         ELSE G(x, Tail(rest), fuel)
              IN G(<<>>, p, 40)
Levels(f, p, k, m) ==
    IF k > Len(p) THEN f
    ELSE LET x == GoIn(f, SubSeq(p, 1, k))
         IN Levels(IF (IF x # Nowhere /\ x # <<>> /\ x \notin DOMAIN f THEN Open(f, DirOf(x)) ELSE FALSE) THEN (x :> Node(1, Umask(m), <<>>)) @@ f ELSE f, p, k + 1, m)
Mkdir(p, m, rec, r) ==
    IF rec THEN LET pre == Levels(fs, DirOf(p), 1, m) x == GoIn(pre, p) ok == IF x # Nowhere /\ x # <<>> /\ x \notin DOMAIN pre THEN Open(pre, DirOf(x)) ELSE FALSE
                IN r = ok /\ fs' = Levels(fs, p, 1, m)
    ELSE r = CanMk(p) /\ (IF r THEN fs' = (At(p) :> Node(1, Umask(m), <<>>)) @@ fs ELSE UNCHANGED fs)

(* The links a name leads through.                                             *)
RECURSIVE Via(_, _, _)
Via(done, rest, fuel) ==
    IF rest = <<>> THEN {}
    ELSE LET p == done \o <<Head(rest)>> more == Tail(rest) # <<>> IN
         IF ~Has(p) \/ fuel = 0 THEN {}
         ELSE IF IsLink(p) /\ more THEN {p} \cup Via(<<>>, fs[p].c \o Tail(rest), fuel - 1)
         ELSE Via(p, Tail(rest), fuel)
Rmdir(p, rec, r) ==
    LET x == At(p) there == x # Nowhere /\ Has(x) /\ IsDir(x) /\ (rec \/ Kids(x) = {})
        below == {q \in DOMAIN fs : q = x \/ Under(x, q)}
        can == {q \in below : \A z \in below : z = q \/ Under(q, z) => MayEdit(z)}
        ok == there /\ x \in can IN
    \* removing a tree through a link inside it takes away the name itself halfway;
    \* what lies in a directory that may not be written to stays, with all above it
    IF there /\ (x \notin can \/ \E v \in Via(<<>>, p, 40) : Under(x, v))
    THEN \E S \in SUBSET can : (\A q \in S, z \in below : Under(q, z) => z \in S) /\ (r => S = below) /\ fs' = Without(S)
    ELSE r = ok /\ (IF r THEN fs' = Without({q \in DOMAIN fs : q = x \/ Under(x, q)}) ELSE UNCHANGED fs)

PutFile(p, b, m, r) ==
    LET x == Into(p) ok == x # Nowhere /\ ~IsDir(x) /\ (IF Has(x) THEN Writable(x) /\ fs[x].lk # 2 ELSE MayEdit(x))
    IN r = ok /\ (IF r THEN fs' = (x :> [Node(2, IF Has(x) THEN fs[x].m ELSE Umask(m), b) EXCEPT !.lk = IF Has(x) THEN fs[x].lk ELSE 0]) @@ fs ELSE UNCHANGED fs)

(* Somebody keeps the file open, or lets go of whatever was kept open.         *)
Hold(p, ex, r) == LET x == Into(p) ok == x # Nowhere /\ IsFile(x) /\ Readable(x)
                  IN r = ok /\ (IF r THEN fs' = [fs EXCEPT ![x].lk = IF ex THEN 2 ELSE 1] ELSE UNCHANGED fs)
LetGo == fs' = [q \in DOMAIN fs |-> [fs[q] EXCEPT !.lk = 0]]
CanLoad(p) == LET x == Into(p) IN x # Nowhere /\ IsFile(x) /\ Readable(x) /\ fs[x].lk # 2

Symlink(p, t, r) == LET x == At(p) ok == x # Nowhere /\ x # <<>> /\ ~Has(x) /\ MayEdit(x)
                    IN r = ok /\ (IF r THEN fs' = (x :> Node(3, 511, t)) @@ fs ELSE UNCHANGED fs)

Delete(p, r) == LET x == At(p) ok == x # Nowhere /\ Has(x) /\ ~IsDir(x) /\ MayEdit(x)
                IN r = ok /\ (IF r THEN fs' = Without({x}) ELSE UNCHANGED fs)

CopyNode(x) == [Node(2, fs[x].m, fs[x].c) EXCEPT !.mt = fs[x].mt]
CanCopy(p, q) == LET x == Into(p) y == Into(q) IN /\ CanLoad(p) /\ y # Nowhere /\ ~IsDir(y) /\ y # x
                                                           /\ (IF Has(y) THEN Writable(y) /\ fs[y].lk = 0 ELSE MayEdit(y))
Copy(p, q, r) == /\ r = CanCopy(p, q)
                 /\ IF r THEN fs' = (Into(q) :> CopyNode(Into(p))) @@ fs ELSE UNCHANGED fs

Rebase(x, y, q) == y \o SubSeq(q, Len(x) + 1, Len(q))
CanRename(x, y) == /\ x # Nowhere /\ y # Nowhere /\ Has(x) /\ y # <<>>
                   /\ IF IsDir(x) THEN ~Under(x, y) /\ (~Has(y) \/ (IsDir(y) /\ Kids(y) = {}) \/ x = y) ELSE ~IsDir(y)
MayRename(x, y) == IF x = y THEN TRUE ELSE (MayEdit(x) /\ MayEdit(y) /\ (IF IsDir(x) /\ DirOf(x) # DirOf(y) THEN Writable(x) ELSE TRUE))
Copied(p, q) == (Into(q) :> CopyNode(Into(p))) @@ fs
Move(p, q, xdev, r) ==
    LET x == At(p) y == At(q) IN
    IF (IF xdev THEN FALSE ELSE IF CanRename(x, y) THEN ~MayRename(x, y) ELSE FALSE)
    THEN \* not allowed as it stands: refused, or copied and then removed; never "moved" with the source left behind
         \/ ~r /\ UNCHANGED fs
         \/ CanCopy(p, q) /\ r = MayEdit(x) /\ fs' = (IF r THEN [z \in DOMAIN Copied(p, q) \ {x} |-> Copied(p, q)[z]] ELSE Copied(p, q))
    ELSE IF ~xdev THEN /\ r = CanRename(x, y)
                  /\ IF ~r \/ x = y THEN UNCHANGED fs
                     ELSE LET M == {z \in DOMAIN fs : z = x \/ Under(x, z)}
                              rest == [z \in DOMAIN fs \ (M \cup {y}) |-> fs[z]]
                          IN fs' = [z \in {Rebase(x, y, w) : w \in M} |-> fs[x \o SubSeq(z, Len(y) + 1, Len(z))]] @@ rest
    ELSE IF CanCopy(p, q)          \* across devices: copy, then remove the source
         THEN /\ r = MayEdit(x)
              /\ IF r THEN fs' = [z \in DOMAIN Copied(p, q) \ {x} |-> Copied(p, q)[z]] ELSE fs' \in {fs, Copied(p, q)}
         ELSE ~r /\ UNCHANGED fs

Chmod(p, m, r) == LET x == Into(p) IN
                  /\ r = (x # Nowhere /\ (x = <<>> \/ Has(x)))
                  /\ IF r /\ x # <<>> THEN fs' = [fs EXCEPT ![x].m = m] ELSE UNCHANGED fs
Times(p, hm, mt, mu, r) == LET x == Into(p) IN
                  /\ r = (x # Nowhere /\ (x = <<>> \/ Has(x)))
                  /\ IF r /\ x # <<>> /\ IsFile(x) THEN fs' = [fs EXCEPT ![x].mt = IF hm THEN mt ELSE @, ![x].mu = IF hm THEN mu ELSE -1] ELSE UNCHANGED fs

Exists(p) == LET x == Into(p) IN x # Nowhere /\ (x = <<>> \/ Has(x))
Names(p)  == {q[Len(q)] : q \in Kids(Into(p))}
=============================================================================
