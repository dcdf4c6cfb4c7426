-------------------------------- MODULE List --------------------------------
(* Doubly linked list with detachable nodes.                                  *)
(* State: which nodes each list holds and in which order, the value stored in *)
(* every live node, and the set of nodes the caller holds detached.           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS Lists,      \* list handles, 1..n
          Values      \* values stored (model checking only)

VARIABLES seq,        \* [Lists -> Seq(node id)]
          val,        \* [node id -> value]  for live nodes
          det,        \* detached nodes owned by the caller
          nid         \* next fresh node id

vars == <<seq, val, det, nid>>

Range(s) == {s[i] : i \in 1..Len(s)}
Index(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
InsAt(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
Del(s, x) == LET i == Index(s, x) IN SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

Init == /\ seq = [i \in Lists |-> <<>>]
        /\ val = <<>>
        /\ det = {}
        /\ nid = 1

(* Where a node inserted before/after `ref' (0 = none) goes. *)
PosBefore(i, ref) == IF ref = 0 THEN Len(seq[i]) + 1 ELSE Index(seq[i], ref)
PosAfter(i, ref)  == IF ref = 0 THEN 1 ELSE Index(seq[i], ref) + 1
RefOK(i, ref) == ref = 0 \/ ref \in Range(seq[i])

InsertNew(i, pos, v) ==
  /\ seq' = [seq EXCEPT ![i] = InsAt(seq[i], pos, nid)]
  /\ val' = val @@ (nid :> v)
  /\ nid' = nid + 1
  /\ UNCHANGED det

(* A run of fresh nodes with equal values at the end. *)
InsertMany(i, n, v) ==
  /\ seq' = [seq EXCEPT ![i] = @ \o [k \in 1..n |-> nid + k - 1]]
  /\ val' = [k \in DOMAIN val \cup nid..(nid + n - 1) |-> IF k >= nid THEN v ELSE val[k]]
  /\ nid' = nid + n
  /\ UNCHANGED det

InsertNode(i, pos, n) ==
  /\ n \in det
  /\ seq' = [seq EXCEPT ![i] = InsAt(seq[i], pos, n)]
  /\ det' = det \ {n}
  /\ UNCHANGED <<val, nid>>

NewNode(v) ==
  /\ val' = val @@ (nid :> v) /\ det' = det \cup {nid} /\ nid' = nid + 1
  /\ UNCHANGED seq

Detach(i, n) ==
  /\ n \in Range(seq[i])
  /\ seq' = [seq EXCEPT ![i] = Del(seq[i], n)]
  /\ det' = det \cup {n}
  /\ UNCHANGED <<val, nid>>

Drop(f, S) == [x \in DOMAIN f \ S |-> f[x]]

Remove(i, n) ==
  /\ n \in Range(seq[i])
  /\ seq' = [seq EXCEPT ![i] = Del(seq[i], n)]
  /\ val' = Drop(val, {n})
  /\ UNCHANGED <<det, nid>>

FreeNode(n) == n \in det /\ det' = det \ {n} /\ val' = Drop(val, {n}) /\ UNCHANGED <<seq, nid>>

Empty(i) ==
  /\ val' = Drop(val, Range(seq[i]))
  /\ seq' = [seq EXCEPT ![i] = <<>>]
  /\ UNCHANGED <<det, nid>>

AppendAll(i, j) ==      \* detach all of j and append to i
  /\ i # j
  /\ seq' = [seq EXCEPT ![i] = seq[i] \o seq[j], ![j] = <<>>]
  /\ UNCHANGED <<val, det, nid>>

Copy(i, j) ==        \* list i becomes an independent copy of list j
  IF i = j THEN UNCHANGED vars
  ELSE LET k == Len(seq[j])
           new == [x \in 1..k |-> nid + x - 1]
       IN /\ seq' = [seq EXCEPT ![i] = new]
          /\ val' = [x \in (DOMAIN val \ Range(seq[i])) \cup nid..(nid + k - 1) |-> IF x >= nid THEN val[seq[j][x - nid + 1]] ELSE val[x]]
          /\ nid' = nid + k
          /\ UNCHANGED det

Write(n, v) == n \in DOMAIN val /\ val' = [val EXCEPT ![n] = v] /\ UNCHANGED <<seq, det, nid>>

Next ==
  \/ \E i \in Lists, v \in Values :
       \E r \in Range(seq[i]) \cup {0} : InsertNew(i, PosBefore(i, r), v) \/ InsertNew(i, PosAfter(i, r), v)
  \/ \E i \in Lists, n \in det :
       \E r \in Range(seq[i]) \cup {0} : InsertNode(i, PosBefore(i, r), n) \/ InsertNode(i, PosAfter(i, r), n)
  \/ \E v \in Values : NewNode(v)
  \/ \E i \in Lists : \E n \in Range(seq[i]) : Detach(i, n) \/ Remove(i, n)
  \/ \E n \in det : FreeNode(n)
  \/ \E i \in Lists : Empty(i)
  \/ \E i, j \in Lists : AppendAll(i, j) \/ Copy(i, j)
  \/ \E n \in DOMAIN val, v \in Values : Write(n, v)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties of the design *)
NoDup == \A i \in Lists : Cardinality(Range(seq[i])) = Len(seq[i])
Disjoint == /\ \A i, j \in Lists : i # j => Range(seq[i]) \cap Range(seq[j]) = {}
            /\ \A i \in Lists : Range(seq[i]) \cap det = {}
Conserved == DOMAIN val = det \cup UNION {Range(seq[i]) : i \in Lists}
(* values only change through Write *)
ValuesStable == [][\A n \in DOMAIN val \cap DOMAIN val' :
                     val'[n] = val[n] \/ (\E v \in Values : Write(n, v))]_vars
=============================================================================
