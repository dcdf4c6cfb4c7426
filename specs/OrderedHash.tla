---------------------------- MODULE OrderedHash -----------------------------
(* Insertion-ordered hash map with unique keys and detachable nodes.          *)
(* A key is a sequence of integers: <<0, ...>> an integer key (its limbs),    *)
(* <<1, ...>> a string key (its bytes), so keys of the two kinds never clash. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS Hashes, Keys, Values      \* Keys, Values: model checking only

VARIABLES seq,    \* [Hashes -> Seq(node)]  list order
          key,    \* [node -> key]    for live nodes
          val,    \* [node -> value]
          det,    \* detached nodes owned by the caller
          nid

vars == <<seq, key, val, det, nid>>

Range(s) == {s[i] : i \in 1..Len(s)}
Index(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
InsAt(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
Del(s, x) == LET i == Index(s, x) IN SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Drop(f, S) == [x \in DOMAIN f \ S |-> f[x]]

Init == seq = [i \in Hashes |-> <<>>] /\ key = <<>> /\ val = <<>> /\ det = {} /\ nid = 1

Lookup(i, k) == IF \E n \in Range(seq[i]) : key[n] = k
                THEN CHOOSE n \in Range(seq[i]) : key[n] = k ELSE 0
Has(i, k) == \E n \in Range(seq[i]) : key[n] = k

RefOK(i, ref) == ref = 0 \/ ref \in Range(seq[i])
PosBefore(i, ref) == IF ref = 0 THEN Len(seq[i]) + 1 ELSE Index(seq[i], ref)
PosAfter(i, ref)  == IF ref = 0 THEN 1 ELSE Index(seq[i], ref) + 1

(* Result of an insertion is the node inserted, or 0 when the key exists. *)
InsertNew(i, pos, k, v, res) ==
  IF Has(i, k) THEN res = 0 /\ UNCHANGED vars
  ELSE /\ res = nid
       /\ seq' = [seq EXCEPT ![i] = InsAt(seq[i], pos, nid)]
       /\ key' = key @@ (nid :> k) /\ val' = val @@ (nid :> v) /\ nid' = nid + 1
       /\ UNCHANGED det

InsertNode(i, pos, n, res) ==
  /\ n \in det
  /\ IF Has(i, key[n]) THEN res = 0 /\ UNCHANGED vars
     ELSE /\ res = n
          /\ seq' = [seq EXCEPT ![i] = InsAt(seq[i], pos, n)]
          /\ det' = det \ {n} /\ UNCHANGED <<key, val, nid>>

NewNode(k, v) == /\ key' = key @@ (nid :> k) /\ val' = val @@ (nid :> v)
                 /\ det' = det \cup {nid} /\ nid' = nid + 1 /\ UNCHANGED seq

SetKey(n, k) == n \in det /\ key' = [key EXCEPT ![n] = k] /\ UNCHANGED <<seq, val, det, nid>>
Write(n, v)  == n \in DOMAIN val /\ val' = [val EXCEPT ![n] = v] /\ UNCHANGED <<seq, key, det, nid>>

Detach(i, n) == /\ n \in Range(seq[i])
                /\ seq' = [seq EXCEPT ![i] = Del(seq[i], n)] /\ det' = det \cup {n}
                /\ UNCHANGED <<key, val, nid>>
Remove(i, n) == /\ n \in Range(seq[i])
                /\ seq' = [seq EXCEPT ![i] = Del(seq[i], n)]
                /\ key' = Drop(key, {n}) /\ val' = Drop(val, {n}) /\ UNCHANGED <<det, nid>>
FreeNode(n)  == /\ n \in det /\ det' = det \ {n} /\ key' = Drop(key, {n}) /\ val' = Drop(val, {n})
                /\ UNCHANGED <<seq, nid>>
EmptyDelete(i) == /\ key' = Drop(key, Range(seq[i])) /\ val' = Drop(val, Range(seq[i]))
                  /\ seq' = [seq EXCEPT ![i] = <<>>] /\ UNCHANGED <<det, nid>>
EmptyDetach(i) == /\ det' = det \cup Range(seq[i])
                  /\ seq' = [seq EXCEPT ![i] = <<>>] /\ UNCHANGED <<key, val, nid>>
Assign(d, n) == /\ d \in det /\ n \in DOMAIN val /\ key' = [key EXCEPT ![d] = key[n]] /\ val' = [val EXCEPT ![d] = val[n]]
                /\ UNCHANGED <<seq, det, nid>>
(* every q-th node, from the first, is removed *)
Thin(i, q) == LET gone == {seq[i][k] : k \in {x \in 1..Len(seq[i]) : (x - 1) % q = 0}}
              IN /\ seq' = [seq EXCEPT ![i] = SelectSeq(@, LAMBDA n : n \notin gone)]
                 /\ key' = Drop(key, gone) /\ val' = Drop(val, gone) /\ UNCHANGED <<det, nid>>
(* cnt new integer keys from base on, each inserted at the same end *)
IntKey(n) == <<0, n % 65536, n \div 65536, 0, 0>>
Many(i, base, cnt, v, front) ==
  /\ \A k \in 0..(cnt - 1) : ~Has(i, IntKey(base + k))
  /\ seq' = [seq EXCEPT ![i] = IF front THEN [x \in 1..cnt |-> nid + cnt - x] \o @ ELSE @ \o [x \in 1..cnt |-> nid + x - 1]]
  /\ key' = key @@ [x \in nid..(nid + cnt - 1) |-> IntKey(base + x - nid)]
  /\ val' = val @@ [x \in nid..(nid + cnt - 1) |-> v] /\ nid' = nid + cnt /\ UNCHANGED det
Resize(i) == UNCHANGED vars          \* never observable
Copy(i, j) ==
  IF i = j THEN UNCHANGED vars
  ELSE LET k == Len(seq[j])
           src(x) == seq[j][x - nid + 1]
       IN /\ seq' = [seq EXCEPT ![i] = [x \in 1..k |-> nid + x - 1]]
          /\ key' = Drop(key, Range(seq[i])) @@ [x \in nid..(nid + k - 1) |-> key[src(x)]]
          /\ val' = Drop(val, Range(seq[i])) @@ [x \in nid..(nid + k - 1) |-> val[src(x)]]
          /\ nid' = nid + k /\ UNCHANGED det

Next ==
  \/ \E i \in Hashes, k \in Keys, v \in Values, res \in 0..nid :
       \E r \in Range(seq[i]) \cup {0} : InsertNew(i, PosBefore(i, r), k, v, res) \/ InsertNew(i, PosAfter(i, r), k, v, res)
  \/ \E i \in Hashes, n \in det, res \in 0..nid :
       \E r \in Range(seq[i]) \cup {0} : InsertNode(i, PosBefore(i, r), n, res) \/ InsertNode(i, PosAfter(i, r), n, res)
  \/ \E k \in Keys, v \in Values : NewNode(k, v)
  \/ \E n \in det : FreeNode(n) \/ \E k \in Keys : SetKey(n, k)
  \/ \E i \in Hashes : (\E n \in Range(seq[i]) : Detach(i, n) \/ Remove(i, n)) \/ EmptyDelete(i) \/ EmptyDetach(i)
  \/ \E i, j \in Hashes : Copy(i, j)
  \/ \E n \in DOMAIN val, v \in Values : Write(n, v)
  \/ \E d \in det, n \in DOMAIN val : Assign(d, n)
  \/ \E i \in Hashes, q \in 1..2 : Thin(i, q)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
UniqueKeys == \A i \in Hashes : \A a, b \in 1..Len(seq[i]) : a # b => key[seq[i][a]] # key[seq[i][b]]
Disjoint == /\ \A i, j \in Hashes : i # j => Range(seq[i]) \cap Range(seq[j]) = {}
            /\ \A i \in Hashes : Range(seq[i]) \cap det = {}
Conserved == DOMAIN val = det \cup UNION {Range(seq[i]) : i \in Hashes} /\ DOMAIN key = DOMAIN val
(* order of the nodes that stay never changes *)
Before(s, a, b) == \E i, j \in 1..Len(s) : i < j /\ s[i] = a /\ s[j] = b
OrderKept == [][\A i \in Hashes : \A a, b \in Range(seq[i]) \cap Range(seq'[i]) :
                  Before(seq[i], a, b) => Before(seq'[i], a, b)]_vars
=============================================================================
