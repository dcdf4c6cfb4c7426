------------------------------- MODULE FileIO -------------------------------
(* Files as ideal byte arrays, used through handles with access rights,        *)
(* advisory locks, a position and a (possibly outdated) idea of the size.      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS Names, Hs

VARIABLES dir,    \* name -> file number, 0: there is no such file
          data,   \* file number -> bytes
          perm,   \* file number -> permissions (the program owns every file)
          hd      \* handle -> state

fvars == <<dir, data, perm, hd>>
Closed == [o |-> FALSE, ino |-> 0, rd |-> FALSE, wr |-> FALSE, app |-> FALSE, ex |-> FALSE, pos |-> 0, max |-> 0]

FInit == dir = [n \in Names |-> 0] /\ data = << >> /\ perm = << >> /\ hd = [h \in Hs |-> Closed]

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Size(i)   == Len(data[i])
Used(i)   == {h \in Hs : hd[h].o /\ hd[h].ino = i}
Bytes(s, p, n) == SubSeq(s, p + 1, p + n)
Zeros(n)  == [k \in 1..n |-> 0]
Put(s, p, b) == LET t == IF Len(s) < p THEN s \o Zeros(p - Len(s)) ELSE s
                IN SubSeq(t, 1, p) \o b \o SubSeq(t, p + Len(b) + 1, Len(t))

NewFile(n, b, p) == /\ data' = data \o <<b>> /\ dir' = [dir EXCEPT ![n] = Len(data) + 1] /\ perm' = perm \o <<p>>

(* the permissions of a new file: the nine bits asked for without those masked *)
Bit(x, k)  == (x \div (2 ^ k)) % 2
RECURSIVE Masked(_, _, _)
Masked(m, u, k) == IF k = 9 THEN 0 ELSE (IF Bit(m, k) = 1 /\ Bit(u, k) = 0 THEN 2 ^ k ELSE 0) + Masked(m, u, k + 1)
MayRead(p)  == Bit(p, 8) = 1
MayWrite(p) == Bit(p, 7) = 1

(* share: TRUE if others may use the file as well *)
CanOpen(h, n, acc, cr, ex, share) ==
    /\ acc \in 0..2
    /\ IF dir[n] = 0 THEN cr
       ELSE /\ ~(cr /\ ex)
            /\ (acc # 1 => MayRead(perm[dir[n]])) /\ (acc # 0 => MayWrite(perm[dir[n]]))
            /\ \A g \in Used(dir[n]) \ {h} : share /\ ~hd[g].ex
Open(h, n, acc, cr, ex, tr, app, share, mode, mask, r) ==
    LET i == IF dir[n] = 0 THEN Len(data) + 1 ELSE dir[n]
        b == IF dir[n] = 0 \/ (tr /\ acc # 0) THEN <<>> ELSE data[dir[n]] IN
    /\ r = CanOpen(h, n, acc, cr, ex, share)
    /\ IF ~r THEN hd' = [hd EXCEPT ![h] = Closed] /\ UNCHANGED <<dir, data, perm>>
       ELSE /\ IF dir[n] = 0 THEN NewFile(n, <<>>, Masked(mode, mask, 0)) ELSE data' = [data EXCEPT ![i] = b] /\ UNCHANGED <<dir, perm>>
            /\ hd' = [hd EXCEPT ![h] = [o |-> TRUE, ino |-> i, rd |-> acc # 1, wr |-> acc # 0, app |-> app, ex |-> ~share,
                                        pos |-> IF app THEN Len(b) ELSE 0, max |-> Len(b)]]

Close(h) == hd' = [hd EXCEPT ![h] = Closed] /\ UNCHANGED <<dir, data, perm>>

Fail == UNCHANGED fvars

(* hard: the system reported an error; short: it transferred less than asked *)
Read(h, n, r, b, hard, short) ==
    LET x == hd[h] avail == Max(0, Size(x.ino) - x.pos) want == Min(n, avail) IN
    IF ~(x.o /\ x.rd) THEN ~r /\ b = <<>> /\ Fail
    ELSE /\ Len(b) <= want /\ b = Bytes(data[x.ino], x.pos, Len(b))
         /\ ~hard => r
         /\ hard => (~r \/ Len(b) > 0)
         /\ (~hard /\ ~short) => Len(b) = want
         /\ (r /\ want > 0) => Len(b) > 0
         /\ hd' = [hd EXCEPT ![h].pos = @ + Len(b), ![h].max = IF x.pos <= x.max /\ n > x.max - x.pos THEN Size(x.ino) ELSE @]
         /\ UNCHANGED <<dir, data, perm>>

Write(h, b, r, got, hard) ==
    LET x == hd[h] p == IF x.app THEN Size(x.ino) ELSE x.pos IN
    IF ~(x.o /\ x.wr) THEN ~r /\ got = 0 /\ Fail
    ELSE /\ got <= Len(b) /\ r = (got = Len(b)) /\ (~hard => r)
         /\ data' = IF got = 0 THEN data ELSE [data EXCEPT ![x.ino] = Put(@, p, SubSeq(b, 1, got))]
         /\ \E m \in IF got = 0 THEN {x.max, Max(x.max, x.pos)} ELSE {Max(x.max, x.pos + got)} :
              hd' = [hd EXCEPT ![h].pos = @ + got, ![h].max = m]
         /\ UNCHANGED <<dir, perm>>

Target(x, w, p) == CASE w = 0 -> Min(p, x.max)
                     [] w = 1 -> IF p <= x.max THEN x.max - p ELSE 0
                     [] w = 2 -> IF x.pos <= x.max /\ p <= x.max - x.pos THEN x.pos + p ELSE x.max
                     [] OTHER -> IF x.pos >= p THEN x.pos - p ELSE 0
Seek(h, w, p, r, hard) ==
    IF ~hd[h].o THEN ~r /\ Fail
    ELSE /\ r = ~hard
         /\ hd' = IF r THEN [hd EXCEPT ![h].pos = Target(hd[h], w, p)] ELSE hd
         /\ UNCHANGED <<dir, data, perm>>

Refresh(h, r) == /\ r = hd[h].o
                 /\ hd' = IF r THEN [hd EXCEPT ![h].max = Size(hd[h].ino)] ELSE hd
                 /\ UNCHANGED <<dir, data, perm>>
Flush(h, r)  == r = (hd[h].o /\ hd[h].wr) /\ Fail
Delete(n, r) == r = (dir[n] # 0) /\ dir' = [dir EXCEPT ![n] = 0] /\ UNCHANGED <<data, perm, hd>>
OnDisk(n, x, b, p) == x = (dir[n] # 0) /\ (x => b = data[dir[n]] /\ p = perm[dir[n]])

(* Whole files, judged in one step: the content before, the outcome, after.    *)
CopyOk(a, r, a2, b2, hard) == a2 = a /\ (r => b2 = a) /\ (~hard => r) /\ (hard => ~r)
MoveOk(a, r, ax, a2, b2, hard) == (r => ~ax /\ b2 = a) /\ (~r => ax /\ a2 = a) /\ (~hard => r)
(* written in pieces and read back in pieces; contents are run-length lists: byte, count, byte, count, ... *)
RECURSIVE RunLen(_, _)
RunLen(a, k)  == IF k > Len(a) THEN 0 ELSE a[k] + RunLen(a, k + 2)
Starts(d, a)  == /\ Len(d) <= Len(a)
                 /\ IF d = <<>> THEN TRUE ELSE SubSeq(d, 1, Len(d) - 1) = SubSeq(a, 1, Len(d) - 1) /\ d[Len(d)] <= a[Len(d)]
PipeOk(a, r, at, disk, back, res, hard) ==
    /\ (r => disk = a) /\ (~hard => r /\ back)
    /\ Starts(disk, a) /\ RunLen(disk, 2) = at
    /\ Starts(res, disk) /\ (back => res = disk)
LoadOk(a, r, res, hard, short) == (r => res = a) /\ (hard => ~r) /\ (~hard /\ ~short => r)
-----------------------------------------------------------------------------
Locking == \A h, g \in Hs : (h # g /\ hd[h].o /\ hd[g].o /\ hd[h].ino = hd[g].ino) => ~hd[h].ex /\ ~hd[g].ex
Distinct == \A m, n \in Names : (m # n /\ dir[m] # 0) => dir[m] # dir[n]
=============================================================================
