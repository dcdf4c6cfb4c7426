------------------------------ MODULE MCCsprng ------------------------------
(* GetBytes as a read loop against every environment; rejection sampling.     *)
EXTENDS Csprng, TLC
CONSTANTS MaxN, MaxSrc, W
VARIABLES out,   \* what the caller has been given, in order, over all calls
          src,   \* next source byte
          pc
mvars == <<cvars, out, src, pc>>
Init == CInit /\ out = <<>> /\ src = 0 /\ pc = "new"
DoNew == pc = "new" /\ \E s \in BOOLEAN, a \in SUBSET {1, 2, 3} : New(s, a) /\ pc' = "idle" /\ UNCHANGED <<out, src>>
DoAsk == pc = "idle" /\ \E n \in 0..MaxN : Ask(n) /\ pc' = "call" /\ UNCHANGED <<out, src>>
Sys == /\ pc = "call" /\ open # {} /\ ~broken /\ Len(pool) < need /\ src < MaxSrc
       /\ \E r \in {-1, -2} \cup 0..(need - Len(pool)), d \in open :
            LET data == IF r > 0 THEN [k \in 1..r |-> src + k] ELSE <<>> IN
            SysRead(d, need - Len(pool), r, data) /\ src' = src + Len(data)
       /\ UNCHANGED <<out, pc>>
Done == /\ pc = "call" /\ pc' = "idle"
        /\ \/ /\ open # {} /\ ~broken /\ Len(pool) >= need
              /\ Answer(TRUE, SubSeq(pool, 1, need)) /\ out' = out \o SubSeq(pool, 1, need)
           \/ (open = {} \/ broken) /\ Answer(FALSE, <<>>) /\ out' = out
        /\ UNCHANGED src
Next == DoNew \/ DoAsk \/ Sys \/ Done
Spec == Init /\ [][Next]_mvars
(* no byte is handed out twice, none that the system did not deliver *)
Fresh == \A i, j \in 1..Len(out) : (i < j => out[i] < out[j]) /\ out[i] <= src
SafeDev == TRUE
(* Rejection sampling is exact: every value of the range has the same number  *)
(* of accepted samples, none outside (W-bit words).                           *)
RECURSIVE MaskOf(_, _)
MaskOf(span, m) == IF span > m THEN MaskOf(span, 2 * m + 1) ELSE m
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
And(x, m) == x % (m + 1)     \* m = 2^k - 1
ASSUME \A a \in 0..Pow2(W) - 1 : \A b \in a..Pow2(W) - 1 :
          LET m == MaskOf(b - a, 0)
              hits(v) == Cardinality({x \in 0..Pow2(W) - 1 : And(x, m) <= b - a /\ And(x, m) + a = v})
          IN /\ \A v \in a..b : hits(v) = hits(a) /\ hits(v) > 0
             /\ \A v \in (0..2 * Pow2(W)) \ (a..b) : hits(v) = 0
=============================================================================
