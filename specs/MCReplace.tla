------------------------------ MODULE MCReplace -----------------------------
EXTENDS Replace
Small == Len(out) <= 5
(* Replacing every reported occurrence gives exactly what the one-call form   *)
(* defines, and leaving all of them alone reproduces the source.              *)
ASSUME \A d \in Seqs(MaxData), p \in Seqs(MaxPat) \ {<<>>}, r \in Seqs(2) :
          /\ \A k \in {-1, 0, 1, 2} : Jumped(d, p, r, k, 0) = <<All(d, p, r, 1, <<>>, k, 0), Count(d, p, 1, k, 0)>>
          /\ All(d, p, p, 1, <<>>, -1, 0) = d
          /\ Len(All(d, p, r, 1, <<>>, -1, 0)) = Len(d) + Count(d, p, 1, -1, 0) * (Len(r) - Len(p))
=============================================================================
