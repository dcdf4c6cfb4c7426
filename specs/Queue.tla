------------------------------- MODULE Queue --------------------------------
(* Singly linked queue with detachable nodes: the list machine restricted to  *)
(* the operations a queue offers (both ends in, front out, splice, copy).     *)
EXTENDS List

PushNew(i, v)      == InsertNew(i, Len(seq[i]) + 1, v)
UnshiftNew(i, v)   == InsertNew(i, 1, v)
PushNode(i, n)     == InsertNode(i, Len(seq[i]) + 1, n)
UnshiftNode(i, n)  == InsertNode(i, 1, n)
Shift(i)           == seq[i] # <<>> /\ Detach(i, seq[i][1])

QNext ==
  \/ \E i \in Lists, v \in Values : PushNew(i, v) \/ UnshiftNew(i, v)
  \/ \E i \in Lists, n \in det : PushNode(i, n) \/ UnshiftNode(i, n)
  \/ \E v \in Values : NewNode(v)
  \/ \E i \in Lists : Shift(i) \/ Empty(i)
  \/ \E n \in det : FreeNode(n)
  \/ \E i, j \in Lists : AppendAll(i, j) \/ Copy(i, j)
  \/ \E n \in DOMAIN val, v \in Values : Write(n, v)
QSpec == Init /\ [][QNext]_vars

(* First in, first out: the relative order of two nodes that stay queued      *)
(* never changes, and nodes leave from the front only (unless all leave).     *)
Before(s, a, b) == \E i, j \in 1..Len(s) : i < j /\ s[i] = a /\ s[j] = b
Fifo == [][\A i \in Lists : \A a, b \in Range(seq[i]) :
             /\ (Before(seq[i], a, b) /\ {a, b} \subseteq Range(seq'[i])) => Before(seq'[i], a, b)
             /\ (Before(seq[i], a, b) /\ b \notin Range(seq'[i])) => a \notin Range(seq'[i])]_vars
=============================================================================
