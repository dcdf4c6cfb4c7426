------------------------------- MODULE MCUtf8 -------------------------------
(* Laws of the conversion functions, for every text of up to MaxLen units     *)
(* from representative byte values and for every boundary code point.         *)
EXTENDS Utf8Fast
CONSTANTS MaxLen
Bytes == {65, 128, 191, 204, 129, 194, 226, 131, 237, 160, 240, 144, 244}
Points0 == {65, 127, 128, 233, 2047, 2048, 8364, 55295, 57344, 64975, 65008, 65533, 65536, 128512, 1114109}
VARIABLE t
Init == t \in UNION {[1..n -> Bytes] : n \in 0..MaxLen}
Next == UNCHANGED t
Spec == Init /\ [][Next]_t
RECURSIVE Cat(_, _, _)
Cat(p, i, w) == IF i > Len(p) THEN <<>> ELSE Enc(p[i], w) \o Cat(p, i + 1, w)
CpsOf(s) == LET it == Items(s, 1, 1) IN [k \in 1..Len(it) |-> it[k].cp]
(* cleaning is idempotent and its result survives every round trip *)
Clean == ToUtf8(t, 1, -1).out
Idempotent == ToUtf8(Clean, 1, -1).out = Clean
RoundTrip == \A w \in {1, 2, 4} : ToUtf8(FromUtf8(Clean, w, -1), w, -1).out = Clean
Whole == \A cap \in 0..Len(Clean) : LET o == ToUtf8(t, 1, cap).out
            IN Len(o) <= cap /\ o = SubSeq(Clean, 1, Len(o)) /\ ToUtf8(o, 1, -1).out = o
FromPrefix == \A w \in {2, 4} : FromUtf8(t, w, -1) = Cat(CpsOf(SubSeq(t, 1, Len(t))), 1, w) \/ Len(FromUtf8(t, w, -1)) < Len(t) \/ t = <<>>
LenBound == StrLen(t) <= Len(t) /\ StrLen(Clean) <= StrLen(Clean \o <<65>>)
(* the forms for long texts agree with the definitions *)
Wide(w) == IF w = 1 THEN t ELSE [k \in 1..Len(t) |-> IF t[k] > 200 THEN 55296 + t[k] ELSE IF t[k] > 150 THEN 56320 + t[k] ELSE t[k]]
Same == /\ \A w \in {1, 2, 4} : /\ FItems(Wide(w), w) = Items(Wide(w), 1, w)
                                 /\ \A cap \in {-1} \cup 0..(2 * Len(t)) : FToUtf8(Wide(w), w, cap) = ToUtf8(Wide(w), w, cap) /\ FFromUtf8(t, w, cap) = FromUtf8(t, w, cap)
        /\ FScan(t) = Scan(t) /\ FScan(t \o <<0>> \o t) = Scan(t \o <<0>> \o t) /\ FStrLen(FScan(t)) = StrLen(t) /\ FAscii(FScan(t)) = AsciiOf(t)
        /\ \A c \in {65, 817, 0} : \A a \in BOOLEAN : FFind(FScan(t), c, a) = FindPoint(t, c, a)
ASSUME \A c \in Points0 : \A w \in {1, 2, 4} : AtW(Enc(c, w), 1, w) = [cp |-> c, n |-> Len(Enc(c, w))] /\ Permitted(c)
ASSUME \A c \in Points0 : \A d \in Points0 : c < d => Len(Enc8(c)) <= Len(Enc8(d))
=============================================================================
