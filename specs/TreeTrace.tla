----------------------------- MODULE TreeTrace -----------------------------
EXTENDS Tree, TraceKit, SequencesExt
PathOf(v) == SubSeq(v, 6, 5 + v[5])
RestOf(v) == SubSeq(v, 6 + v[5], Len(v))
Matches(n, v) == /\ n.k = v[1] /\ (n.k # 3 => n.m = v[2]) /\ n.c = RestOf(v)
                 /\ (n.mt # -1 => n.mt = v[3]) /\ (n.mu # -1 => n.mu = v[4])
OnDisk(t) == /\ Len(t) = Cardinality(DOMAIN fs)
             /\ \A k \in 1..Len(t) : /\ Len(t[k]) >= 5 /\ t[k][1] \in 1..3
                                     /\ PathOf(t[k]) \in DOMAIN fs /\ Matches(fs[PathOf(t[k])], t[k])
Nothing == UNCHANGED fs
Stay(r) == r /\ Nothing

Act == CASE Ev.op = "tree" -> OnDisk(Ev.t) /\ Nothing
              [] Ev.op = "mkdir" -> Mkdir(Ev.p, Ev.m, Ev.rec, Ev.r)
              [] Ev.op = "rmdir" -> Rmdir(Ev.p, Ev.rec, Ev.r)
              [] Ev.op = "put" -> PutFile(Ev.p, Ev.b, Ev.m, Ev.r)
              [] Ev.op = "hold" -> Hold(Ev.p, Ev.ex, Ev.r)
              [] Ev.op = "letgo" -> LetGo
              [] Ev.op = "symlink" -> Symlink(Ev.p, Ev.t, Ev.r)
              [] Ev.op = "copy" -> Copy(Ev.p, Ev.q, Ev.r)
              [] Ev.op = "move" -> Move(Ev.p, Ev.q, Ev.xdev, Ev.r)
              [] Ev.op = "delete" -> Delete(Ev.p, Ev.r)
              [] Ev.op = "list" -> Stay(/\ Ev.r = (Exists(Ev.p) /\ IsDir(Into(Ev.p)))
                                        /\ Ev.r => LET N == Names(Ev.p) \cap ToSet(Ev.fit) IN Len(Ev.l) = Cardinality(N) /\ ToSet(Ev.l) = N
                                        /\ Ev.c2 => Len(Ev.fit) < 5)
              [] Ev.op = "readlink" -> LET x == At(Ev.p) ok == x # Nowhere /\ x # <<>> /\ IsLink(x) /\ Ev.fit
                                       IN Stay(Ev.r = ok /\ Ev.good /\ (Ev.r => Ev.t = fs[x].c))
              [] Ev.op = "realpath" -> Stay(Ev.r = (Exists(Ev.p) /\ Ev.fit) /\ Ev.good /\ (Ev.r => Ev.t = Into(Ev.p)))
              [] Ev.op = "stat" -> LET x == IF Ev.ln THEN At(Ev.p) ELSE Into(Ev.p) ok == x # Nowhere /\ (x = <<>> \/ Has(x))
                                   IN Stay(/\ Ev.x = Exists(Ev.p) /\ Ev.r = ok
                                           /\ (ok /\ x # <<>>) => /\ Ev.ty = fs[x].k /\ (fs[x].k # 3 => Ev.m = fs[x].m)
                                                                  /\ (fs[x].k = 2 => Ev.size = Len(fs[x].c)))
              [] Ev.op = "load" -> LET ok == CanLoad(Ev.p) IN Stay(Ev.r = ok /\ (ok => Ev.b = fs[Into(Ev.p)].c))
              [] Ev.op = "chmod" -> Chmod(Ev.p, Ev.m, Ev.r)
              [] Ev.op = "owner" -> Stay(Ev.r = (Ev.known /\ Exists(Ev.p)) /\ (Ev.r => Ev.good) /\ (~Ev.r => Ev.n = 0))
              [] Ev.op = "times" -> Ev.ok /\ Times(Ev.p, Ev.hm, Ev.mt, Ev.mu, Ev.r)
              [] Ev.op = "cwd" -> Stay(Ev.a /\ ~Ev.b /\ Ev.fds = 0)
              [] OTHER -> FALSE

(* A name beyond the system's limit may be refused, without any effect. *)
TooLong == "lg" \in DOMAIN Ev /\ Ev.lg /\ ~Ev.r /\ Nothing
TNext == /\ More /\ Adv
         /\ (TooLong \/ Act)
TInit == TKInit /\ TInit0
TSpec == TInit /\ [][TNext]_<<fs, tid, l>>
=============================================================================
