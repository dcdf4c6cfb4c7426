------------------------------- MODULE MCTree -------------------------------
EXTENDS Tree
CONSTANTS Comp, Depth, Steps
VARIABLES n, last
vars == <<fs, n, last>>
P == UNION {[1..k -> Comp] : k \in 1..Depth}
Modes == {448, 320}
Init == TInit0 /\ n = 0 /\ last = [op |-> "init"]
Next ==
    /\ n < Steps /\ n' = n + 1
    /\ \E p \in P, r \in BOOLEAN :
       \/ \E rec \in BOOLEAN, m \in Modes : Mkdir(p, m, rec, r) /\ last' = [op |-> "mkdir", p |-> p, r |-> r, rec |-> rec]
       \/ \E rec \in BOOLEAN : Rmdir(p, rec, r) /\ last' = [op |-> "rmdir", p |-> p, r |-> r, rec |-> rec]
       \/ PutFile(p, <<n>>, 438, r) /\ last' = [op |-> "put", p |-> p, r |-> r]
       \/ \E t \in P : Symlink(p, t, r) /\ last' = [op |-> "symlink", p |-> p, r |-> r]
       \/ \E ex \in BOOLEAN : (\A q \in DOMAIN fs : fs[q].lk = 0) /\ Hold(p, ex, r) /\ last' = [op |-> "hold", p |-> p, r |-> r]
       \/ (\E q \in DOMAIN fs : fs[q].lk # 0) /\ LetGo /\ r /\ p = (CHOOSE x \in P : TRUE) /\ last' = [op |-> "letgo", r |-> r]
       \/ Delete(p, r) /\ last' = [op |-> "delete", p |-> p, r |-> r]
       \/ \E q \in P : Copy(p, q, r) /\ last' = [op |-> "copy", p |-> p, q |-> q, r |-> r]
       \/ \E q \in P, xdev \in BOOLEAN : Move(p, q, xdev, r) /\ last' = [op |-> "move", p |-> p, q |-> q, r |-> r, xdev |-> xdev]
Spec == Init /\ [][Next]_vars
(* Every node lies in a directory. *)
Rooted == \A q \in DOMAIN fs : q # <<>> /\ IsDir(DirOf(q))
(* Recursive removal touches only what lies under the named directory itself:  *)
(* links are removed, never followed.                                          *)
OnlyUnder == [][last'.op = "rmdir" =>
                  LET x == At(last'.p) IN
                  /\ DOMAIN fs' \subseteq DOMAIN fs
                  /\ \A q \in DOMAIN fs : (q \in DOMAIN fs' /\ fs'[q] = fs[q]) \/ ((last'.r \/ last'.rec) /\ (q = x \/ Under(x, q)))]_vars
OneGone == [][last'.op = "delete" => Cardinality(DOMAIN fs) - Cardinality(DOMAIN fs') = (IF last'.r THEN 1 ELSE 0)]_vars
CopyKeeps == [][last'.op = "copy" =>
                  /\ (last'.r => fs'[Into(last'.p)] = fs[Into(last'.p)] /\ fs'[Into(last'.q)].c = fs[Into(last'.p)].c)
                  /\ \A q \in DOMAIN fs : q # Into(last'.q) => fs'[q] = fs[q]]_vars
MoveKeeps == [][last'.op = "move" /\ last'.r =>
                  LET x == At(last'.p) IN
                  /\ Cardinality(DOMAIN fs') \in {Cardinality(DOMAIN fs), Cardinality(DOMAIN fs) - 1}
                  /\ (IsFile(x) => \E q \in DOMAIN fs' : fs'[q].k = 2 /\ fs'[q].c = fs[x].c)]_vars
(* what somebody has open exclusively is never overwritten or copied *)
LockKeeps == [][last'.op \in {"put", "copy"} => \A q \in DOMAIN fs : fs[q].lk = 2 => fs'[q] = fs[q]]_vars
(* A failed operation changes nothing, except that a recursive one may have     *)
(* done part of its work and a move may have made the copy already.            *)
FailKeeps == [][~last'.r => CASE last'.op \in {"mkdir", "rmdir"} -> last'.rec \/ fs' = fs
                              [] last'.op = "move" -> \A q \in DOMAIN fs : q # Into(last'.q) => fs'[q] = fs[q]
                              [] OTHER -> fs' = fs]_vars
(* A move that is reported as done leaves nothing at the old place. *)
MoveGone == [][last'.op = "move" /\ last'.r /\ At(last'.p) # At(last'.q) => At(last'.p) \notin DOMAIN fs']_vars
(* Nothing comes or goes in a directory that may not be written to. *)
Shut == [][\A d \in DOMAIN fs : fs[d].k = 1 /\ ~Writable(d) /\ d \in DOMAIN fs' /\ fs'[d].k = 1 /\ fs'[d].m = fs[d].m /\ last'.op # "move"
              => {q \in DOMAIN fs' : DirOf(q) = d} = Kids(d)]_vars
MkdirAdds == [][last'.op = "mkdir" => \A q \in DOMAIN fs : fs'[q] = fs[q]]_vars
View == <<fs, n>>
=============================================================================
