----------------------------- MODULE PackedHash -----------------------------
(* Insertion-ordered hash map stored in an array with gaps.                   *)
(* ent[h]: the entries in order, each [k, v, p] with p its array position;    *)
(* nxt[h]: one past the last position in use.                                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS Hashes, Keys, Values, MaxPos      \* Keys, Values, MaxPos: model checking only
VARIABLES ent, nxt
vars == <<ent, nxt>>

Init == ent = [h \in Hashes |-> <<>>] /\ nxt = [h \in Hashes |-> 0]

Idx(s, k) == IF \E i \in 1..Len(s) : s[i].k = k THEN CHOOSE i \in 1..Len(s) : s[i].k = k ELSE 0
Del(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
KV(s) == [i \in 1..Len(s) |-> <<s[i].k, s[i].v>>]
(* positions are strictly increasing and below the end *)
Placed(s, n) == /\ \A i \in 1..Len(s) : s[i].p >= 0 /\ s[i].p < n
                /\ \A i \in 1..(Len(s) - 1) : s[i].p < s[i + 1].p

(* Setting an existing key changes its value in place; a new key goes last    *)
(* (the array may be compacted or moved, which must keep order and content).  *)
SetOld(h, k, v) == /\ Idx(ent[h], k) # 0
                   /\ ent' = [ent EXCEPT ![h][Idx(ent[h], k)].v = v] /\ UNCHANGED nxt
SetNew(h, k, v, s, n) ==
  /\ Idx(ent[h], k) = 0
  /\ KV(s) = KV(ent[h]) \o << <<k, v>> >>
  /\ Placed(s, n)
  /\ ent' = [ent EXCEPT ![h] = s] /\ nxt' = [nxt EXCEPT ![h] = n]
Unset(h, k, res) ==
  IF Idx(ent[h], k) = 0 THEN res = FALSE /\ UNCHANGED vars
  ELSE res = TRUE /\ ent' = [ent EXCEPT ![h] = Del(ent[h], Idx(ent[h], k))] /\ UNCHANGED nxt
IntKey(n) == <<0, n % 65536, n \div 65536, 0, 0>>
SetMany(h, base, cnt, v, s, n) ==
  /\ KV(s) = KV(ent[h]) \o [i \in 1..cnt |-> <<IntKey(base + i - 1), v>>]
  /\ Placed(s, n) /\ ent' = [ent EXCEPT ![h] = s] /\ nxt' = [nxt EXCEPT ![h] = n]
(* every q-th entry, counted from the front or the back, is removed *)
Thin(h, q, back) == LET len == Len(ent[h])
                        gone == {ent[h][i].p : i \in {x \in 1..len : (IF back THEN len - x ELSE x - 1) % q = 0}}
                    IN ent' = [ent EXCEPT ![h] = SelectSeq(@, LAMBDA z : z.p \notin gone)] /\ UNCHANGED nxt
Optimize(h) == /\ ent' = [ent EXCEPT ![h] = [i \in 1..Len(ent[h]) |-> [ent[h][i] EXCEPT !.p = i - 1]]]
               /\ nxt' = [nxt EXCEPT ![h] = Len(ent[h])]
Move(h, s, n) == /\ KV(s) = KV(ent[h]) /\ Placed(s, n)
                 /\ ent' = [ent EXCEPT ![h] = s] /\ nxt' = [nxt EXCEPT ![h] = n]
Copy(h, j, s, n) == /\ KV(s) = KV(ent[j]) /\ Placed(s, n)
                    /\ ent' = [ent EXCEPT ![h] = s] /\ nxt' = [nxt EXCEPT ![h] = n]

(* model checking: all placements over 0..MaxPos *)
Nth(S, i) == CHOOSE x \in S : Cardinality({y \in S : y < x}) = i - 1
Placements(kv) == {[i \in 1..Len(kv) |-> [k |-> kv[i][1], v |-> kv[i][2], p |-> Nth(S, i)]] :
                     S \in {T \in SUBSET (0..MaxPos) : Cardinality(T) = Len(kv)}}
Next ==
  \/ \E h \in Hashes, k \in Keys, v \in Values : SetOld(h, k, v)
  \/ \E h \in Hashes, k \in Keys, v \in Values, n \in 0..(MaxPos + 1) : \E s \in Placements(KV(ent[h]) \o << <<k, v>> >>) : SetNew(h, k, v, s, n)
  \/ \E h \in Hashes, k \in Keys, b \in BOOLEAN : Unset(h, k, b)
  \/ \E h \in Hashes : Optimize(h) \/ Thin(h, 2, TRUE) \/ Thin(h, 2, FALSE)
  \/ \E h \in Hashes, n \in 0..(MaxPos + 1) : \E s \in Placements(KV(ent[h])) : Move(h, s, n)
  \/ \E h, j \in Hashes, n \in 0..(MaxPos + 1) : \E s \in Placements(KV(ent[j])) : Copy(h, j, s, n)
Spec == Init /\ [][Next]_vars

UniqueKeys == \A h \in Hashes : \A a, b \in 1..Len(ent[h]) : a # b => ent[h][a].k # ent[h][b].k
AllPlaced == \A h \in Hashes : Placed(ent[h], nxt[h])
(* where a walk forwards or backwards from position q gets to; -1 at the end *)
(* (L: the positions in use, ascending). *)
Lives(h) == [i \in 1..Len(ent[h]) |-> ent[h][i].p]
Below(L, b) == Cardinality({i \in 1..Len(L) : L[i] < b})
NextFrom(L, n, q) == LET c == Below(L, IF q >= n THEN 0 ELSE q + 1) IN IF c = Len(L) THEN -1 ELSE L[c + 1]
PrevFrom(L, n, q) == LET c == Below(L, IF q > n THEN n ELSE q) IN IF c = 0 THEN -1 ELSE L[c]
Before(s, x, y) == \E i, j \in 1..Len(s) : i < j /\ s[i].k = x /\ s[j].k = y
KeysOf(s) == {s[i].k : i \in 1..Len(s)}
=============================================================================
