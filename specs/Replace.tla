------------------------------ MODULE Replace -------------------------------
(* Find-and-replace: copies a source to an output, leaving alone or replacing *)
(* each occurrence the finder reports.  cap = -1: the output grows as needed; *)
(* otherwise the output is the prefix that fits.                              *)
EXTENDS Find
VARIABLES out, src, cap, full      \* src: next source element not yet copied; full: fixed output overflowed
rvars == <<pat, data, pos, active, hit, out, src, cap, full>>

Min(a, b) == IF a < b THEN a ELSE b
Sub(s, a, b) == IF a > b THEN <<>> ELSE SubSeq(s, a, b)
Clip(s) == IF cap = -1 \/ Len(s) <= cap THEN s ELSE SubSeq(s, 1, cap)

RInit == Init /\ out = <<>> /\ src = 1 /\ cap = -1 /\ full = FALSE
RSetPattern(p) == SetPattern(p) /\ UNCHANGED <<out, src, cap, full>>
RSetData(d, c) == SetData(d) /\ out' = <<>> /\ src' = 1 /\ cap' = c /\ full' = FALSE

(* Copy everything up to the next occurrence (or the end). *)
RFindNext(res, m) ==
  LET r == IF active THEN FirstMatch(pos, m) ELSE 0
      new == out \o Sub(data, src, (IF r = 0 THEN Len(data) ELSE r - 1))
  IN IF cap # -1 /\ Len(new) > cap
     THEN /\ res = 0 /\ out' = Clip(new) /\ full' = TRUE /\ hit' = 0 /\ active' = FALSE
          /\ src' = Len(data) + 1 /\ UNCHANGED <<pat, data, pos, cap>>
     ELSE /\ res = r /\ out' = new /\ hit' = r
          /\ src' = (IF r = 0 THEN Len(data) + 1 ELSE r)
          /\ IF r = 0 THEN active' = FALSE /\ UNCHANGED pos ELSE pos' = r + 1 /\ UNCHANGED active
          /\ UNCHANGED <<pat, data, cap, full>>
(* Emit `d' instead of the occurrence just reported and `post' more elements. *)
RReplace(d, post) ==
  /\ hit # 0
  /\ out' = Clip(out \o d)
  /\ full' = (full \/ (cap # -1 /\ Len(out \o d) > cap))
  /\ pos' = hit + Len(pat) + post
  /\ src' = Min(hit + Len(pat) + post, Len(data) + 1)
  /\ hit' = 0 /\ UNCHANGED <<pat, data, active, cap>>

RNext == \/ \E p \in Seqs(MaxPat) : RSetPattern(p)
         \/ \E d \in Seqs(MaxData), c \in {-1, 1, 3} : RSetData(d, c)
         \/ \E r \in 0..MaxData : RFindNext(r, 0)
         \/ \E d \in Seqs(2), x \in 0..1 : RReplace(d, x)
RSpec == RInit /\ [][RNext]_rvars
OutFits == cap # -1 => Len(out) <= cap

-----------------------------------------------------------------------------
(* The one-call form. *)
RECURSIVE All(_, _, _, _, _, _, _)
(* d: source, p: pattern, r: replacement, i: position, o: output, k: replacements left, m *)
All(d, p, r, i, o, k, m) ==
  IF i > Len(d) THEN o
  ELSE IF p # <<>> /\ k # 0 /\ i + Len(p) - 1 <= Len(d) /\ (\A x \in 1..Len(p) : Same(p[x], d[i + x - 1], m))
       THEN All(d, p, r, i + Len(p), o \o r, k - 1, m)
       ELSE All(d, p, r, i + 1, o \o <<d[i]>>, k, m)
RECURSIVE Count(_, _, _, _, _)
Count(d, p, i, k, m) ==
  IF i > Len(d) \/ p = <<>> \/ k = 0 THEN 0
  ELSE IF i + Len(p) - 1 <= Len(d) /\ (\A x \in 1..Len(p) : Same(p[x], d[i + x - 1], m))
       THEN 1 + Count(d, p, i + Len(p), k - 1, m)
       ELSE Count(d, p, i + 1, k, m)

(* The same from occurrence to occurrence, for long texts: <<text, number>>. *)
RECURSIVE Jump(_, _, _, _, _, _, _, _)
Jump(d, p, r, M, i, o, k, n) ==
  LET S == {x \in M : x >= i}
  IN IF S = {} \/ k = 0 THEN <<o \o Sub(d, i, Len(d)), n>>
     ELSE LET f == CHOOSE x \in S : \A y \in S : x <= y
          IN Jump(d, p, r, M, f + Len(p), o \o Sub(d, i, f - 1) \o r, k - 1, n + 1)
Jumped(d, p, r, lim, m) == Jump(d, p, r, IF p = <<>> THEN {} ELSE {x \in 1..(Len(d) - Len(p) + 1) : \A k \in 1..Len(p) : Same(p[k], d[x + k - 1], m)}, 1, <<>>, lim, 0)
Replaced(d, p, r, lim, m) == IF Len(d) > 250 THEN Jumped(d, p, r, lim, m) ELSE <<All(d, p, r, 1, <<>>, lim, m), Count(d, p, 1, lim, m)>>

ReplaceAll(d, p, r, lim, m, res, num) == Replaced(d, p, r, lim, m) = <<res, num>>
StaticReplaceAll(d, p, r, lim, m, c, res, num) ==
  LET full0 == Replaced(d, p, r, lim, m)
  IN res = SubSeq(full0[1], 1, Min(c, Len(full0[1]))) /\ (Len(full0[1]) <= c => num = full0[2])
=============================================================================
