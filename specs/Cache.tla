------------------------------- MODULE Cache --------------------------------
(* Fixed-size cache of overwritable storage: `Size[c]' slots; an entry lives  *)
(* in slot (hash mod size) until removed or overwritten.                      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS Caches, Hash, Keys, Values, Sizes     \* Hash.. Sizes: model checking only
VARIABLES size,      \* [Caches -> number of slots]
          slot       \* [Caches -> function from the slots in use (0..size-1) to <<key, value>>]
vars == <<size, slot>>

New(c, n) == size' = [size EXCEPT ![c] = n] /\ slot' = [slot EXCEPT ![c] = <<>>]
Hit(c, s, k) == s \in DOMAIN slot[c] /\ slot[c][s][1] = k

Insert(c, s, k, v) == slot' = [slot EXCEPT ![c] = (s :> <<k, v>>) @@ @] /\ UNCHANGED size
Remove(c, s, k, res) == /\ res = Hit(c, s, k)
                        /\ slot' = IF res THEN [slot EXCEPT ![c] = [x \in (DOMAIN @) \ {s} |-> @[x]]] ELSE slot
                        /\ UNCHANGED size
Find(c, s, k, res, v) == res = Hit(c, s, k) /\ (res => v = slot[c][s][2]) /\ UNCHANGED vars
Exists(c, s, k, res)  == res = Hit(c, s, k) /\ UNCHANGED vars
Empty(c) == slot' = [slot EXCEPT ![c] = <<>>] /\ UNCHANGED size
Copy(c, d) == size' = [size EXCEPT ![c] = size[d]] /\ slot' = [slot EXCEPT ![c] = slot[d]]

Init == \E n \in Sizes : size = [c \in Caches |-> n] /\ slot = [c \in Caches |-> <<>>]
Next ==
  \/ \E c \in Caches, h \in Hash, k \in Keys, v \in Values : Insert(c, h % size[c], k, v)
  \/ \E c \in Caches, h \in Hash, k \in Keys : Remove(c, h % size[c], k, Hit(c, h % size[c], k))
  \/ \E c \in Caches : Empty(c)
  \/ \E c, d \in Caches : Copy(c, d)
  \/ \E c \in Caches, n \in Sizes : New(c, n)
Spec == Init /\ [][Next]_vars

(* A lookup can only hit what was stored under exactly that key in that slot, *)
(* and an entry disappears only by removal, overwrite of its slot, emptying,  *)
(* or replacement of the whole cache.                                         *)
TypeOK == \A c \in Caches : DOMAIN slot[c] \subseteq 0..(size[c] - 1)
Changed(c) == {s \in (DOMAIN slot[c]) \cup (DOMAIN slot'[c]) :
                 s \notin DOMAIN slot[c] \/ s \notin DOMAIN slot'[c] \/ slot'[c][s] # slot[c][s]}
OnlyOneSlotChanges == [][\A c \in Caches :
     \/ size[c] = size'[c] /\ Cardinality(Changed(c)) <= 1
     \/ \E d \in Caches : slot'[c] = slot[d]
     \/ DOMAIN slot'[c] = {}]_vars
=============================================================================
