-------------------------------- MODULE Limbs --------------------------------
(* Unsigned 64-bit numbers as four 16-bit limbs, least significant first.      *)
EXTENDS Naturals, Integers, Sequences
LZero == <<0, 0, 0, 0>>
LOf(n) == <<n % 65536, n \div 65536, 0, 0>>
RECURSIVE LLe(_, _, _)
LLe(a, b, i) == IF i = 0 THEN TRUE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LLe(a, b, i - 1)
Le(a, b) == LLe(a, b, 4)
Add(a, b) == LET s1 == a[1] + b[1]
                 s2 == a[2] + b[2] + (s1 \div 65536)
                 s3 == a[3] + b[3] + (s2 \div 65536)
                 s4 == a[4] + b[4] + (s3 \div 65536)
             IN <<s1 % 65536, s2 % 65536, s3 % 65536, s4 % 65536>>
Neg(a) == Add(<<65535 - a[1], 65535 - a[2], 65535 - a[3], 65535 - a[4]>>, <<1, 0, 0, 0>>)
Sub(a, b) == Add(a, Neg(b))
LMin(a, b) == IF Le(a, b) THEN a ELSE b
LMax(a, b) == IF Le(a, b) THEN b ELSE a
=============================================================================
