-------------------------------- MODULE Utf8 --------------------------------
(* Unicode text as UTF-8, UTF-16 and UTF-32.  Texts are sequences of unit     *)
(* values (bytes, 16-bit or 32-bit units); positions are 1-based here.        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Combining(c) == c \in 768..879 \/ c \in 7616..7679 \/ c \in 8400..8447 \/ c \in 65056..65071
Surrogate(c) == c \in 55296..57343
NonChar(c)   == c \in 64976..65007 \/ c % 65536 >= 65534
Permitted(c) == c >= 0 /\ c <= 1114111 /\ ~Surrogate(c) /\ ~NonChar(c)

-----------------------------------------------------------------------------
Enc8(c) == IF c <= 127 THEN <<c>>
           ELSE IF c <= 2047 THEN <<192 + (c \div 64), 128 + (c % 64)>>
           ELSE IF c <= 65535 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Enc16(c) == IF c <= 65535 THEN <<c>>
            ELSE <<55296 + ((c - 65536) \div 1024), 56320 + ((c - 65536) % 1024)>>
Enc(c, w) == IF w = 1 THEN Enc8(c) ELSE IF w = 2 THEN Enc16(c) ELSE <<c>>

Cont(s, i) == i <= Len(s) /\ s[i] \in 128..191
(* The structurally complete sequence starting at i: [cp, n]; n = 0: none.    *)
At8(s, i) == LET b == s[i]
             IN IF b <= 127 THEN [cp |-> b, n |-> 1]
                ELSE IF b \in 192..223 /\ Cont(s, i + 1)
                     THEN [cp |-> (b - 192) * 64 + (s[i + 1] - 128), n |-> 2]
                ELSE IF b \in 224..239 /\ Cont(s, i + 1) /\ Cont(s, i + 2)
                     THEN [cp |-> (b - 224) * 4096 + (s[i + 1] - 128) * 64 + (s[i + 2] - 128), n |-> 3]
                ELSE IF b \in 240..247 /\ Cont(s, i + 1) /\ Cont(s, i + 2) /\ Cont(s, i + 3)
                     THEN [cp |-> (b - 240) * 262144 + (s[i + 1] - 128) * 4096 + (s[i + 2] - 128) * 64 + (s[i + 3] - 128), n |-> 4]
                ELSE [cp |-> 0, n |-> 0]
At16(s, i) == IF s[i] \in 55296..56319 /\ i + 1 <= Len(s) /\ s[i + 1] \in 56320..57343
              THEN [cp |-> 65536 + (s[i] - 55296) * 1024 + (s[i + 1] - 56320), n |-> 2]
              ELSE [cp |-> s[i], n |-> 1]
AtW(s, i, w) == IF w = 1 THEN At8(s, i) ELSE IF w = 2 THEN At16(s, i) ELSE [cp |-> s[i], n |-> 1]
(* All code points of a text, with the number of units up to and including    *)
(* each; bytes that start no complete sequence are skipped.                   *)
RECURSIVE Items(_, _, _)
Items(s, i, w) == IF i > Len(s) THEN <<>>
                  ELSE LET a == AtW(s, i, w)
                       IN IF a.n = 0 THEN Items(s, i + 1, w)
                          ELSE <<[cp |-> a.cp, last |-> i + a.n - 1]>> \o Items(s, i + a.n, w)

-----------------------------------------------------------------------------
(* To UTF-8 into `cap' bytes (-1: no limit): code points that are not         *)
(* permitted, or combining at the start, are dropped; the output is the       *)
(* longest prefix of whole characters that fits.                              *)
RECURSIVE To8(_, _, _, _, _)
To8(it, k, cap, out, last) ==
  IF k > Len(it) THEN [out |-> out, last |-> last]
  ELSE LET c == it[k].cp
       IN IF ~Permitted(c) \/ (out = <<>> /\ Combining(c)) THEN To8(it, k + 1, cap, out, last)
          ELSE IF cap # -1 /\ Len(out) + Len(Enc8(c)) > cap THEN [out |-> out, last |-> last]
          ELSE To8(it, k + 1, cap, out \o Enc8(c), it[k].last)
ToUtf8(s, w, cap) == IF w \in {1, 2, 4} THEN To8(Items(s, 1, w), 1, cap, <<>>, 0) ELSE [out |-> <<>>, last |-> 0]

(* From UTF-8 into `cap' units (-1: no limit): stops in front of the first    *)
(* code point that is not permitted (combining at the start included) or that *)
(* does not fit.                                                              *)
RECURSIVE From8(_, _, _, _, _)
From8(it, k, w, cap, out) ==
  IF k > Len(it) THEN out
  ELSE LET c == it[k].cp
       IN IF ~Permitted(c) \/ (out = <<>> /\ Combining(c)) THEN out
          ELSE IF cap # -1 /\ Len(out) + Len(Enc(c, w)) > cap THEN out
          ELSE From8(it, k + 1, w, cap, out \o Enc(c, w))
FromUtf8(s, w, cap) == IF w \in {1, 2, 4} THEN From8(Items(s, 1, 1), 1, w, cap, <<>>) ELSE <<>>

-----------------------------------------------------------------------------
(* Reading a text one code point at a time: the code points up to the end,    *)
(* the first zero or the first byte that starts no complete sequence; nothing *)
(* at all when the first one is combining.                                    *)
RECURSIVE Points(_, _)
Points(s, i) == IF i > Len(s) THEN <<>>
                ELSE LET a == At8(s, i)
                     IN IF a.n = 0 \/ a.cp = 0 THEN <<>> ELSE <<[cp |-> a.cp, at |-> i - 1]>> \o Points(s, i + a.n)
Scan(s) == LET p == Points(s, 1) IN IF p # <<>> /\ Combining(p[1].cp) THEN <<>> ELSE p
Marked(p, k) == k < Len(p) /\ Combining(p[k + 1].cp)     \* a combining mark follows
(* characters: a mark belongs to what it follows *)
StrLen(s) == LET p == Scan(s) IN Cardinality({k \in 1..Len(p) : ~Marked(p, k)})
(* byte offset of the first occurrence; -1: none *)
FindPoint(s, c, allow) ==
  LET p == Scan(s)
      hits == {k \in 1..Len(p) : p[k].cp = c /\ (allow \/ ~Marked(p, k))}
  IN IF hits = {} \/ (~allow /\ Combining(c)) THEN -1
     ELSE p[CHOOSE k \in hits : \A j \in hits : k <= j].at
AsciiOf(s) == LET p == Scan(s)
                  RECURSIVE A(_)
                  A(k) == IF k > Len(p) THEN <<>> ELSE (IF p[k].cp <= 127 /\ ~Marked(p, k) THEN <<p[k].cp>> ELSE <<>>) \o A(k + 1)
              IN A(1)
=============================================================================
