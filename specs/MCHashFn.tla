------------------------------ MODULE MCHashFn ------------------------------
(* The functions specified are the published ones (reference vectors of        *)
(* SipHash-2-4), rotation and mixing are bijections, and on all short messages *)
(* over a small alphabet every byte and the length matter.                     *)
EXTENDS HashFn, FiniteSets, TLC
CONSTANTS Alpha, MaxLen
VARIABLE m
Init == m = <<>>
Next == Len(m) < MaxLen /\ \E b \in Alpha : m' = m \o <<b>>
Spec == Init /\ [][Next]_m
K1 == <<256, 770, 1284, 1798>>  \* 07 06 .. 00
K2 == <<2312, 2826, 3340, 3854>>
Seq0(n) == [i \in 1..n |-> i - 1]
(* the first vectors of the reference implementation, and the one of the paper *)
Hex(a, b, c, d) == <<d, c, b, a>>
Ref(n) == SipHash(Seq0(n), K1, K2, 2, 4)
ASSUME /\ Ref(0) = Hex(29295, 56135, 56590, 3633)      \* 726fdb47dd0e0e31
       /\ Ref(1) = Hex(29944, 14789, 37852, 26621)     \* 74f839c593dc67fd
       /\ Ref(7) = Hex(43778, 245, 35585, 53559)       \* ab0200f58b01d137
       /\ Ref(8) = Hex(37877, 62841, 39571, 9314)      \* 93f5f5799a932462
       /\ Ref(15) = Hex(41257, 51809, 18878, 17893)    \* a129ca6149be45e5
       /\ Ref(63) = Hex(38282, 12876, 60166, 17778)    \* 958a324ceb064572
Amounts == {1, 13, 16, 17, 21, 32, 48, 63}
W(s) == LET x == Word(s, 1) IN x
RotBack == \A b \in Amounts : Rot(Rot(W(m), b), 64 - b) = W(m)
RotOne  == \A b \in Amounts : Rot(<<65535, 65535, 65535, 65535>>, b) = <<65535, 65535, 65535, 65535>>
XorSelf == WXor(W(m), W(m)) = LZero /\ WXor(WXor(W(m), K1), K1) = W(m)
(* 33 x = x + 32 x *)
X33Is == LET x == W(m) IN X33w(x) = Add(x, Rot(<<x[1], x[2], x[3], x[4] % 2048>>, 5))
Limbs16(h) == \A i \in 1..4 : h[i] \in 0..65535
Sane == /\ Limbs16(SipHash(m, K1, K2, 2, 4)) /\ Limbs16(Djbx33x(m, LOf(5381))) /\ Limbs16(Djb2Text(m))
(* no two neighbours collide: another last byte, one more byte, another key    *)
Sensitive == /\ \A b \in Alpha : SipHash(m \o <<b>>, K1, K2, 2, 4) # SipHash(m, K1, K2, 2, 4)
             /\ Cardinality({SipHash(m \o <<b>>, K1, K2, 2, 4) : b \in Alpha}) = Cardinality(Alpha)
             /\ SipHash(m, K1, K2, 2, 4) # SipHash(m, K2, K1, 2, 4)
             /\ Cardinality({Djbx33x(m \o <<b>>, LOf(5381)) : b \in Alpha}) = Cardinality(Alpha)
=============================================================================
