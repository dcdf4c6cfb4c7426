------------------------------- MODULE HashFn -------------------------------
(* The string hash functions: SipHash-c-d on 64-bit words (four 16-bit limbs,  *)
(* least significant first), DJBX33X on 32-bit words (two limbs), djb2 on      *)
(* 64-bit words.                                                               *)
EXTENDS Limbs, Bitwise, SequencesExt

Pow2(s) == CASE s = 0 -> 1 [] s = 1 -> 2 [] s = 5 -> 32 [] s = 13 -> 8192 [] s = 16 -> 65536 [] s = 11 -> 2048 [] s = 3 -> 8 [] s = 15 -> 32768 [] OTHER -> 2 ^ s
WXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4]>>
(* rotate left by b bits *)
Rot(x, b) ==
    LET q == b \div 16  s == b % 16
        L(i) == x[((i - 1 - q + 8) % 4) + 1]            \* limb i after rotating whole limbs
        M(i) == ((L(i) * Pow2(s)) % 65536) + L(((i + 2) % 4) + 1) \div Pow2(16 - s)
    IN <<M(1), M(2), M(3), M(4)>>

Round(v) ==
    LET a0 == Add(v[1], v[2])  a1 == WXor(Rot(v[2], 13), a0)  b0 == Rot(a0, 32)
        a2 == Add(v[3], v[4])  a3 == WXor(Rot(v[4], 16), a2)
        c0 == Add(b0, a3)      c3 == WXor(Rot(a3, 21), c0)
        c2 == Add(a2, a1)      c1 == WXor(Rot(a1, 17), c2)    d2 == Rot(c2, 32)
    IN <<c0, c1, d2, c3>>
RECURSIVE Rounds(_, _)
Rounds(v, n) == IF n = 0 THEN v ELSE Rounds(Round(v), n - 1)

(* k bytes of the message starting at byte i (1-based), little endian, padded *)
Byte(m, i) == IF i <= Len(m) THEN m[i] ELSE 0
Word(m, i) == <<Byte(m, i) + 256 * Byte(m, i + 1), Byte(m, i + 2) + 256 * Byte(m, i + 3),
                Byte(m, i + 4) + 256 * Byte(m, i + 5), Byte(m, i + 6) + 256 * Byte(m, i + 7)>>
Absorb(v, w, c) == LET x == Rounds(<<v[1], v[2], v[3], WXor(v[4], w)>>, c) IN <<WXor(x[1], w), x[2], x[3], x[4]>>
UpTo(n) == [i \in 1..n |-> i]
Blocks(v, m, c) == LET F(x, i) == Absorb(x, Word(m, 8 * i - 7), c) IN FoldLeft(F, v, UpTo(Len(m) \div 8))
Tail8(m) == LET w == Word(m, (Len(m) \div 8) * 8 + 1) IN <<w[1], w[2], w[3], w[4] + 256 * (Len(m) % 256)>>
Start(k1, k2) == <<WXor(<<25973, 28787, 28005, 29551>>, k1), WXor(<<28525, 28260, 29281, 25711>>, k2),
                   WXor(<<29281, 28261, 26469, 27769>>, k1), WXor(<<25971, 31092, 25698, 29797>>, k2)>>
SipHash(m, k1, k2, c, d) ==
    LET v == Absorb(Blocks(Start(k1, k2), m, c), Tail8(m), c)
        x == Rounds(<<v[1], v[2], WXor(v[3], <<255, 0, 0, 0>>), v[4]>>, d)
    IN WXor(WXor(x[1], x[2]), WXor(x[3], x[4]))

(* 33 * x on 32 bits (two limbs) *)
X33(x) == LET a == x[1] * 33 b == x[2] * 33 + a \div 65536 IN <<a % 65536, b % 65536>>
Mix(x, lo, hi) == LET y == X33(x) IN <<y[1] ^^ lo, y[2] ^^ hi>>
DjbWords(h, m) == LET F(x, i) == LET q == 4 * i - 3 IN Mix(x, m[q] + 256 * m[q + 1], m[q + 2] + 256 * m[q + 3])
                  IN FoldLeft(F, h, UpTo(Len(m) \div 4))
RECURSIVE DjbTail(_, _, _)
DjbTail(h, m, i) == IF i <= (Len(m) \div 4) * 4 THEN h ELSE DjbTail(Mix(h, m[i], 0), m, i - 1)     \* from the last byte back
Djbx33x(m, init) == LET h == DjbTail(DjbWords(<<init[1], init[2]>>, m), m, Len(m)) IN <<h[1], h[2], 0, 0>>

(* djb2 (exclusive or) over the bytes of a text, 64 bits *)
X33w(x) == LET a == x[1] * 33 b == x[2] * 33 + a \div 65536 c == x[3] * 33 + b \div 65536 e == x[4] * 33 + c \div 65536
           IN <<a % 65536, b % 65536, c % 65536, e % 65536>>
Djb2Text(m) == LET F(x, b) == WXor(X33w(x), <<b, 0, 0, 0>>) IN FoldLeft(F, LOf(5381), m)
=============================================================================
