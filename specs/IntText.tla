------------------------------ MODULE IntText -------------------------------
(* Textual form of 64-bit integers.  A 64-bit word is four 16-bit limbs,      *)
(* least significant first.  Texts are sequences of byte values.              *)
EXTENDS Naturals, Integers, Sequences, TLC

IsZero(w) == \A i \in 1..Len(w) : w[i] = 0
(* divide by a small number *)
Div(w, r) == LET a4 == w[4]
                 q4 == a4 \div r   a3 == (a4 % r) * 65536 + w[3]
                 q3 == a3 \div r   a2 == (a3 % r) * 65536 + w[2]
                 q2 == a2 \div r   a1 == (a2 % r) * 65536 + w[1]
             IN [q |-> <<a1 \div r, q2, q3, q4>>, r |-> a1 % r]
(* two's complement negation *)
Neg(w) == LET c1 == 65536 - w[1]
              k1 == IF w[1] = 0 THEN 1 ELSE 0
              c2 == 65535 - w[2] + k1
              k2 == c2 \div 65536
              c3 == 65535 - w[3] + k2
              k3 == c3 \div 65536
              c4 == 65535 - w[4] + k3
          IN <<c1 % 65536, c2 % 65536, c3 % 65536, c4 % 65536>>
Negative(w) == w[4] >= 32768

Digit(d) == IF d > 9 THEN d - 10 + 65 ELSE d + 48
RECURSIVE DigitsOf(_, _)
DigitsOf(w, r) == IF IsZero(w) THEN <<>> ELSE LET d == Div(w, r) IN DigitsOf(d.q, r) \o <<Digit(d.r)>>
Digits(w, r) == IF IsZero(w) THEN <<48>> ELSE DigitsOf(w, r)

(* a separator between groups of three digits, counted from the right *)
RECURSIVE Group(_, _)
Group(s, sep) == IF Len(s) <= 3 THEN s
                 ELSE Group(SubSeq(s, 1, Len(s) - 3), sep) \o <<sep>> \o SubSeq(s, Len(s) - 2, Len(s))
Unsigned(w, r, sep) == IF sep = 0 THEN Digits(w, r) ELSE Group(Digits(w, r), sep)
Signed(w, r, sep) == IF Negative(w) THEN <<45>> \o Unsigned(Neg(w), r, sep) ELSE Unsigned(w, r, sep)
Text(w, signed, r, sep) == IF signed THEN Signed(w, r, sep) ELSE Unsigned(w, r, sep)

-----------------------------------------------------------------------------
(* Human readable sizes.  b: the number in base 1024, seven digits, least     *)
(* significant first.  Unit 0 is bytes, 1..6 are KB..EB.                       *)
Units == <<75, 77, 71, 84, 80, 69>>      \* K M G T P E
HighestDigit(b) == IF \E i \in 1..7 : b[i] # 0
                   THEN CHOOSE i \in 1..7 : b[i] # 0 /\ \A j \in (i + 1)..7 : b[j] = 0 ELSE 1
StrictUnit(b) == HighestDigit(b) - 1
(* with a fraction requested, 1000 of a unit is already shown in the next one *)
FracUnit(b) == LET u == StrictUnit(b)
               IN IF u = 0 \/ u = 6 \/ b[u + 1] < 1000 THEN u ELSE u + 1
UnitOf(b, nf) == IF nf = 0 THEN StrictUnit(b) ELSE FracUnit(b)
Whole(b, u) == IF u = 6 THEN b[7] ELSE b[u + 1]
(* fraction digits: repeatedly multiply the low part by ten (truncated, never rounded) *)
RECURSIVE MulTen(_, _, _, _)
MulTen(f, i, c, o) == IF i > Len(f) THEN [f |-> o, d |-> c]
                      ELSE LET v == f[i] * 10 + c IN MulTen(f, i + 1, v \div 1024, o \o <<v % 1024>>)
RECURSIVE Frac(_, _)
Frac(f, n) == IF n = 0 THEN <<>> ELSE LET m == MulTen(f, 1, 0, <<>>) IN <<m.d + 48>> \o Frac(m.f, n - 1)
RECURSIVE SmallDigits(_)
SmallDigits(n) == IF n < 10 THEN <<n + 48>> ELSE SmallDigits(n \div 10) \o <<(n % 10) + 48>>

FileSize(b, nf, sep, dec, usep, bytes) ==
  LET u == UnitOf(b, nf)
      whole == SmallDigits(Whole(b, u))
      grouped == IF sep = 0 THEN whole ELSE Group(whole, sep)
      fr == IF nf > 0 /\ u >= 2 THEN <<dec>> \o Frac(SubSeq(b, 1, u), nf) ELSE <<>>
      unit == IF u = 0 THEN bytes ELSE <<Units[u], 66>>
  IN grouped \o fr \o (IF usep = 0 THEN <<>> ELSE <<usep>>) \o unit

-----------------------------------------------------------------------------
(* What a caller with a buffer of `size' bytes may see: `ok' and, if ok, the  *)
(* terminated text.                                                           *)
Fits(t, size) == Len(t) + 1 <= size
IntToText(w, signed, r, sep, size, ok, txt) ==
  IF r < 2 \/ r > 36 THEN ~ok
  ELSE /\ ok = Fits(Text(w, signed, r, sep), size)
       /\ ok => txt = Text(w, signed, r, sep)
(* neg: the magnitude b belongs to a negative number.  A buffer that could    *)
(* not hold even the shortest text plus the unit may be refused up front.     *)
ToFilesize(b, neg, nf, sep, dec, usep, bytes, size, ok, txt) ==
  LET t == (IF neg THEN <<45>> ELSE <<>>) \o FileSize(b, nf, sep, dec, usep, bytes)
      sz == IF neg THEN size - 1 ELSE size
  IN /\ ok => (Fits(t, size) /\ txt = t)
     /\ (~ok) => (~Fits(t, size) \/ sz < 5 + Len(bytes))
=============================================================================
