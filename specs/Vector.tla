------------------------------- MODULE Vector -------------------------------
(* Fixed-size vectors and 2-D arrays as values: w x h cells (a vector is      *)
(* w x 1), element access, independent copies, comparison.                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS Vecs, Values, Dims       \* Values, Dims: model checking only
VARIABLES w, h, cell               \* [Vecs -> Nat], [Vecs -> Nat], [Vecs -> Seq(value)] row-major
vars == <<w, h, cell>>

New(v, nw, nh, cells) ==
  /\ Len(cells) = nw * nh
  /\ w' = [w EXCEPT ![v] = nw] /\ h' = [h EXCEPT ![v] = nh] /\ cell' = [cell EXCEPT ![v] = cells]
Write(v, x, y, val) ==
  /\ x < w[v] /\ y < h[v]
  /\ cell' = [cell EXCEPT ![v][y * w[v] + x + 1] = val] /\ UNCHANGED <<w, h>>
Copy(v, u) == w' = [w EXCEPT ![v] = w[u]] /\ h' = [h EXCEPT ![v] = h[u]] /\ cell' = [cell EXCEPT ![v] = cell[u]]
Equal(v, u) == w[v] = w[u] /\ h[v] = h[u] /\ cell[v] = cell[u]
Compare(v, u, eq, ne) == eq = Equal(v, u) /\ ne = ~Equal(v, u) /\ UNCHANGED vars

Init == w = [v \in Vecs |-> 0] /\ h = [v \in Vecs |-> 1] /\ cell = [v \in Vecs |-> <<>>]
Next == \/ \E v \in Vecs, a, b \in Dims : \E c \in [1..(a * b) -> Values] : New(v, a, b, c)
        \/ \E v \in Vecs, x, y \in Dims, val \in Values : Write(v, x, y, val)
        \/ \E v, u \in Vecs : Copy(v, u)
Spec == Init /\ [][Next]_vars
Shape == \A v \in Vecs : Len(cell[v]) = w[v] * h[v]
(* a write or copy changes one vector only; a write changes one cell *)
Independent == [][Cardinality({v \in Vecs : w'[v] # w[v] \/ h'[v] # h[v] \/ cell'[v] # cell[v]}) <= 1]_vars
=============================================================================
