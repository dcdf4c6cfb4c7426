------------------------------ MODULE MCFileIO ------------------------------
(* Every history of opens (all modes), transfers (complete, short, failing),   *)
(* seeks, closes and deletions with small constants.                           *)
EXTENDS FileIO
CONSTANTS Modes, Masks, Bytes1, MaxLen, MaxFiles, Steps
VARIABLE n, last
mvars == <<fvars, n, last>>
B == {<<x>> : x \in Bytes1} \cup {<<x, y>> : x, y \in Bytes1}
Short(h, k) == LET x == hd[h] IN IF x.o THEN Bytes(data[x.ino], x.pos, Min(k, Max(0, Size(x.ino) - x.pos))) ELSE <<>>
Chunks(h, k) == {SubSeq(Short(h, k), 1, j) : j \in 0..Len(Short(h, k))}
Init == FInit /\ n = 0 /\ last = [op |-> "init"]
Next ==
    /\ n < Steps /\ n' = n + 1
    /\ \/ \E h \in Hs, f \in Names, acc \in 0..2, cr, tr, app, share \in BOOLEAN, r \in BOOLEAN, mode \in Modes, mask \in Masks :
            /\ (dir[f] # 0 \/ f = 1 \/ n > 0 => mode = 384) /\ (mode # 256 => mask = 0)
            /\ ~(app /\ acc = 0) /\ ~(tr /\ acc = 0) /\ (cr => acc # 0)
            /\ (dir[f] = 0 => Len(data) < MaxFiles)
            /\ ~hd[h].o
            /\ Open(h, f, acc, cr, FALSE, tr, app, share, mode, mask, r) /\ last' = [op |-> "open", r |-> r, h |-> h, acc |-> acc, old |-> dir[f]]
       \/ \E h \in Hs : hd[h].o /\ Close(h) /\ last' = [op |-> "close"]
       \/ \E h \in Hs, k \in 1..MaxLen, r, hard, short \in BOOLEAN : \E b \in Chunks(h, k) :
            Read(h, k, r, b, hard, short) /\ last' = [op |-> "read", r |-> r, h |-> h, b |-> b]
       \/ \E h \in Hs, b \in B, r, hard \in BOOLEAN, got \in 0..2 :
            /\ hd[h].o => Len(data[hd[h].ino]) < MaxLen
            /\ Write(h, b, r, got, hard) /\ last' = [op |-> "write", r |-> r, h |-> h, b |-> b, got |-> got]
       \/ \E h \in Hs, w \in 0..3, q \in 0..2, r \in BOOLEAN : Seek(h, w, q, r, ~r /\ hd[h].o) /\ last' = [op |-> "seek", r |-> r, h |-> h]
       \/ \E h \in Hs, r \in BOOLEAN : hd[h].o /\ Refresh(h, r) /\ last' = [op |-> "upd"]
       \/ \E f \in Names, r \in BOOLEAN : dir[f] # 0 /\ Delete(f, r) /\ last' = [op |-> "delete"]
(* What was just written is there; a failed call changed nothing but what it   *)
(* reports; nothing but the file written to changed.                           *)
Written == [][last'.op = "write" => 
                 LET h == last'.h x == hd[h] p == IF x.app THEN Size(x.ino) ELSE x.pos IN
                 /\ (last'.r => last'.got = Len(last'.b))
                 /\ (x.o => \A i \in DOMAIN data : i # x.ino => data'[i] = data[i])
                 /\ (~x.o => data' = data)
                 /\ last'.got > 0 /\ x.o => Bytes(data'[x.ino], p, last'.got) = SubSeq(last'.b, 1, last'.got)
                 /\ x.o => Len(data'[x.ino]) = (IF last'.got = 0 THEN Size(x.ino) ELSE Max(Size(x.ino), p + last'.got))]_mvars
(* a file is only opened for what its permissions allow, and nobody changes    *)
(* them; a file just made may be used whatever they are                        *)
Permitted == [][/\ \A i \in DOMAIN perm : perm'[i] = perm[i]
                /\ (last'.op = "open" /\ last'.r /\ last'.old # 0 =>
                      /\ (hd'[last'.h].rd => MayRead(perm[last'.old]))
                      /\ (hd'[last'.h].wr => MayWrite(perm[last'.old])))]_mvars
ReadOnly == [][last'.op \in {"read", "seek", "upd", "close"} => data' = data /\ dir' = dir]_mvars
FailedOpen == [][last'.op = "open" /\ ~last'.r => data' = data /\ dir' = dir]_mvars
DataOfNames == \A f \in Names : dir[f] <= Len(data)
Spec == Init /\ [][Next]_mvars
View == <<fvars, n>>
=============================================================================
