----------------------------- MODULE MCIntText ------------------------------
(* The text functions denote the number: checked for every value of a range,  *)
(* every radix, and the limb boundaries.                                      *)
EXTENDS IntText
VARIABLE n, r
Vals == {<<x, 0, 0, 0>> : x \in {0, 1, 9, 10, 35, 36, 99, 100, 255, 256, 999, 1000, 32767, 32768, 65535}}
Wide == {<<a, b, c, d>> : a \in {0, 1, 65535}, b \in {0, 65535}, c \in {0, 1, 65535}, d \in {0, 32767, 32768, 65535}}
Init == n \in Vals \cup Wide /\ r \in 2..36
Next == UNCHANGED <<n, r>>
Spec == Init /\ [][Next]_<<n, r>>
DigVal(c) == IF c >= 65 THEN c - 65 + 10 ELSE c - 48
(* multiply a word by r and add d *)
MulAdd(w, d) == LET a == w[1] * r + d  b == w[2] * r + (a \div 65536)  c == w[3] * r + (b \div 65536)  e == w[4] * r + (c \div 65536)
                IN <<a % 65536, b % 65536, c % 65536, e % 65536>>
RECURSIVE Eval(_, _, _)
Eval(s, i, w) == IF i > Len(s) THEN w ELSE Eval(s, i + 1, MulAdd(w, DigVal(s[i])))
Canonical == LET s == Digits(n, r) IN /\ Eval(s, 1, <<0, 0, 0, 0>>) = n
                                      /\ (Len(s) > 1 => s[1] # 48)
                                      /\ \A i \in 1..Len(s) : DigVal(s[i]) \in 0..(r - 1)
NegInvolution == Neg(Neg(n)) = n
Grouping == LET s == Digits(n, r) g == Group(s, 44)
            IN /\ SelectSeq(g, LAMBDA c : c # 44) = s
               /\ \A i \in 1..Len(g) : (g[i] = 44) <=> ((Len(g) - i + 1) % 4 = 0)
-----------------------------------------------------------------------------
(* Sizes: number, unit and truncated fraction bracket the magnitude.          *)
Bs == {<<a, b, c, 0, 0, 0, 0>> : a \in {0, 1, 511, 512, 1023}, b \in {0, 1, 999, 1000, 1023}, c \in {0, 1, 9, 999, 1000, 1023}}
FracVal(f) == f[1] * 100 + f[2] * 10 + f[3] - 48 * 111
SizeDenotes == \A b \in Bs : \A nf \in {0, 3} :
   LET u == UnitOf(b, nf)
       k == IF nf = 0 THEN 0 ELSE FracVal(Frac(SubSeq(b, 1, u), 3))
       lo == IF u >= 2 THEN b[u] ELSE 0         \* the digit just below the unit
   IN /\ u \in 0..6 /\ (nf = 0 => (Whole(b, u) \in 1..1023 \/ u = 0)) /\ (nf > 0 => Whole(b, u) \in 0..999 \/ u \in {0, 6})
      /\ (nf > 0 /\ u >= 2) => (k * 1024 <= (lo + 1) * 1000 /\ (k + 1) * 1024 > lo * 1000)
      /\ \A i \in (u + 2)..7 : b[i] = 0
ASSUME SizeDenotes
=============================================================================
