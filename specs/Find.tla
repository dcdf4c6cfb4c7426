-------------------------------- MODULE Find --------------------------------
(* Single pattern finder over a sequence of elements.                         *)
(* Elements are equal when they are congruent modulo `eqm' (0: identical), so *)
(* both plain and caller-supplied comparison are covered.                     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS Alpha, MaxData, MaxPat      \* model checking only
VARIABLES pat, data, pos, active,     \* pos: where the next search starts (1-based)
          hit                         \* last match (0: none)
vars == <<pat, data, pos, active, hit>>

Same(a, b, m) == IF m = 0 THEN a = b ELSE a % m = b % m
MatchAt(i, m) == /\ i + Len(pat) - 1 <= Len(data)
                 /\ \A k \in 1..Len(pat) : Same(pat[k], data[i + k - 1], m)
(* first match at or after p; 0 when there is none *)
FirstMatch(p, m) == LET X == p..(Len(data) - Len(pat) + 1)
                    IN IF pat = <<>> \/ ~\E x \in X : MatchAt(x, m) THEN 0
                       ELSE CHOOSE x \in X : MatchAt(x, m) /\ \A y \in p..(x - 1) : ~MatchAt(y, m)

Init == pat = <<>> /\ data = <<>> /\ pos = 1 /\ active = FALSE /\ hit = 0
SetPattern(p) == pat' = p /\ active' = FALSE /\ hit' = 0 /\ UNCHANGED <<data, pos>>
SetData(d)    == data' = d /\ pos' = 1 /\ active' = TRUE /\ hit' = 0 /\ UNCHANGED pat

FindNext(res, m) ==
  /\ res = IF active THEN FirstMatch(pos, m) ELSE 0
  /\ hit' = res
  /\ IF res = 0 THEN active' = FALSE /\ UNCHANGED pos ELSE pos' = res + 1 /\ UNCHANGED active
  /\ UNCHANGED <<pat, data>>
(* after a match: continue behind it instead of one element further *)
SkipMatch(extra, res) ==
  /\ hit # 0
  /\ res = hit + Len(pat) + extra
  /\ pos' = res /\ hit' = 0 /\ UNCHANGED <<pat, data, active>>

Seqs(n) == UNION {[1..k -> Alpha] : k \in 0..n}
Next == \/ \E p \in Seqs(MaxPat) : SetPattern(p)
        \/ \E d \in Seqs(MaxData) : SetData(d)
        \/ \E r \in 0..MaxData : FindNext(r, 0)
        \/ hit # 0 /\ \E x \in 0..1 : SkipMatch(x, hit + Len(pat) + x)
Spec == Init /\ [][Next]_vars

(* A reported position is an occurrence; no occurrence is passed over. *)
HitIsMatch == hit # 0 => MatchAt(hit, 0)
NothingMissed == [][\A r \in 0..MaxData : (active /\ hit' = r /\ UNCHANGED <<pat, data>> /\ pos' = r + 1 /\ r > 0) =>
                      \A i \in pos..(r - 1) : ~MatchAt(i, 0)]_vars
Exhausted == [][(active /\ pat # <<>> /\ FindNext(0, 0)) =>
                  \A i \in pos..Len(data) : ~MatchAt(i, 0)]_vars
=============================================================================
