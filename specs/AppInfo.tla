------------------------------ MODULE AppInfo -------------------------------
(* Where an application finds its storage and itself.  Paths are sequences of *)
(* bytes.  Every query is given a buffer of a certain size and either fills   *)
(* in the complete, zero terminated path or is refused.                       *)
EXTENDS Integers, Sequences

VARIABLES hhome, home, hpw, pw      \* $HOME and the directory of the user database
avars == <<hhome, home, hpw, pw>>

Slash == 47
Dot == 46
Ends(p) == Len(p) > 0 /\ p[Len(p)] = Slash
Closed(p) == IF Ends(p) THEN p ELSE p \o <<Slash>>
VarLib == <<47, 118, 97, 114, 47, 108, 105, 98, 47>>
Tmp == <<47, 116, 109, 112, 47>>

Joined(base, prefix, happ, app) ==
  IF happ THEN Closed(Closed(base) \o prefix \o app) ELSE Closed(base)
SystemDir(happ, app) == Joined(VarLib, <<>>, happ, app)
HasHome == hhome \/ hpw
HomeDir == IF hhome THEN home ELSE pw
UserDir(happ, app) == Joined(HomeDir, <<Dot>>, happ, app)

(* The folder part of a file name, with its slash *)
RECURSIVE FolderOf(_)
FolderOf(p) == IF Len(p) = 0 \/ Ends(p) THEN p ELSE FolderOf(SubSeq(p, 1, Len(p) - 1))

(* q: the answer `path' (if there is one), a buffer of `size' bytes, success   *)
(* required from `enough' bytes on and possible only if the path fits.        *)
Query(has, path, enough, size, ret, z, nul, out) ==
  /\ ret => has /\ Len(path) + 1 <= size
  /\ (has /\ enough <= size) => ret
  /\ ret => out = path /\ nul /\ z = Len(path) + 1
  /\ ~ret => z = 0
Env(hh, h, hp, p) == hhome' = hh /\ home' = h /\ hpw' = hp /\ pw' = p
System(happ, app, size, ret, z, nul, out) ==
  LET p == SystemDir(happ, app) IN Query(TRUE, p, Len(p) + 2, size, ret, z, nul, out) /\ UNCHANGED avars
User(happ, app, size, ret, z, nul, out) ==
  /\ IF HasHome THEN LET p == UserDir(happ, app) IN Query(TRUE, p, Len(p) + 2, size, ret, z, nul, out)
     ELSE Query(FALSE, <<>>, 0, size, ret, z, nul, out)
  /\ UNCHANGED avars
Temp(size, ret, z, nul, out) == Query(TRUE, Tmp, Len(Tmp) + 2, size, ret, z, nul, out) /\ UNCHANGED avars
Exe(hreal, real, size, ret, z, nul, out) == Query(hreal, real, Len(real) + 2, size, ret, z, nul, out) /\ UNCHANGED avars
ExeDir(hreal, real, size, ret, z, nul, out) == Query(hreal, FolderOf(real), Len(real) + 2, size, ret, z, nul, out) /\ UNCHANGED avars

(* identity and time *)
RECURSIVE LeFrom(_, _, _)
LeFrom(a, b, k) == IF k = 0 THEN TRUE ELSE IF a[k] # b[k] THEN a[k] < b[k] ELSE LeFrom(a, b, k - 1)
Le(a, b) == LeFrom(a, b, Len(a))
Ids(pid, thread, before, now, after) == pid /\ thread /\ Le(before, now) /\ Le(now, after) /\ UNCHANGED avars
=============================================================================
