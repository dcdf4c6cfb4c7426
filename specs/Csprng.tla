------------------------------- MODULE Csprng -------------------------------
(* A random generator object over the system's random devices.               *)
(* Devices: 1 /dev/random, 2 /dev/arandom, 3 /dev/urandom.  The environment   *)
(* decides what every read delivers: some bytes, an interruption (-1), an     *)
(* error or end of file (-2 / 0 while bytes are wanted).                      *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES open,   \* device the object may use (set), {} = none
          need,   \* bytes requested by the call under way, -1 = no call
          pool,   \* bytes delivered by the system and not handed out yet
          broken  \* a read failed during the call under way
cvars == <<open, need, pool, broken>>

CInit == open = {} /\ need = -1 /\ pool = <<>> /\ broken = FALSE

New(safe, avail) ==
  /\ open' = IF safe THEN {1} \cap avail ELSE {2, 3} \cap avail
  /\ need' = -1 /\ pool' = <<>> /\ broken' = FALSE

(* Ask for n bytes *)
Ask(n) == need = -1 /\ need' = n /\ broken' = FALSE /\ UNCHANGED <<open, pool>>

(* One system read of at most n bytes answered with r / data *)
SysRead(dev, n, r, data) ==
  /\ need >= 0 /\ dev \in open
  /\ r >= 0 => (r = Len(data) /\ r <= n)
  /\ pool' = pool \o data
  /\ broken' = (broken \/ r = -2 \/ (r = 0 /\ n > 0))
  /\ UNCHANGED <<open, need>>

(* The call returns: success exactly if nothing failed, with fresh bytes only *)
Answer(ret, out) ==
  /\ need >= 0 /\ need' = -1
  /\ need > 0 => ret = (open # {} /\ ~broken)
  /\ IF ret THEN /\ Len(out) = need /\ Len(pool) >= need
                 /\ out = SubSeq(pool, 1, need)
                 /\ pool' = SubSeq(pool, need + 1, Len(pool))
            ELSE pool' \in {pool, <<>>}     \* what a failed call received may be dropped
  /\ UNCHANGED <<open, broken>>

----------------------------------------------------------------------------
(* 64-bit numbers as limbs, least significant first *)
RECURSIVE LeFrom(_, _, _)
LeFrom(a, b, k) == IF k = 0 THEN TRUE ELSE IF a[k] # b[k] THEN a[k] < b[k] ELSE LeFrom(a, b, k - 1)
Le(a, b) == LeFrom(a, b, Len(a))
Within(v, a, b) == IF Le(a, b) THEN Le(a, v) /\ Le(v, b) ELSE Le(b, v) /\ Le(v, a)

(* A random integer: inside the inclusive range whenever it succeeds, and it  *)
(* succeeds exactly if the bytes it needed could be had.                      *)
Integer64(a, b, failed, ret, v) ==
  /\ need = -1 /\ ret = ~failed
  /\ ret => Within(v, a, b)
  /\ UNCHANGED cvars

(* n draws from a range cut into Len(cnt) equal parts: every part occurs, and *)
(* none is favoured.                                                          *)
Draws(n, inside, cnt) ==
  /\ inside
  /\ LET k == Len(cnt) IN \A j \in 1..k : 2 * k * cnt[j] >= n /\ 3 * k * cnt[j] <= 5 * n
  /\ UNCHANGED cvars

(* Both ends of a range can occur, whatever its width.                        *)
Ends(inside, lo, hi) == inside /\ lo /\ hi /\ UNCHANGED cvars
=============================================================================
