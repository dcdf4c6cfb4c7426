------------------------------ MODULE MCPaths -------------------------------
EXTENDS Paths
CONSTANTS Alphabet, MaxLen
VARIABLE name, base
vars == <<name, base>>
Strs(n) == UNION {[1..k -> Alphabet] : k \in 1..n}
Bases == {<<47>>} \cup {Join(c) : c \in {<<<<97>>>>, <<<<97>>, <<98>>>>, <<<<97, 46>>>>}}
Init == name = <<97>> /\ base \in Bases
Grow == Len(name) < MaxLen /\ name' \in {SubSeq(name, 1, Len(name) - 1) \o <<x>> : x \in Alphabet} \cup {name \o <<x>> : x \in Alphabet} /\ UNCHANGED base
Spec == Init /\ [][Grow]_vars
A == Absolute(base, name, FALSE, 100)
AT == Absolute(base, name, TRUE, 100)
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Ups == Cardinality({k \in DOMAIN Comps(Slash(name)) : Comps(Slash(name))[k] = <<46, 46>>})
NoDots   == A.r => \A k \in DOMAIN Comps(A.out) : Comps(A.out)[k] \notin {<<46>>, <<46, 46>>}
Form     == A.r => A.out = Join(Comps(A.out))        \* no doubled or trailing '/'
Trail    == A.r => AT.r /\ AT.out = A.out \o <<47>>
Again    == (A.r /\ A.out # <<>>) => Absolute(base, A.out, FALSE, 100) = A /\ Absolute(<<47>>, A.out, FALSE, 100) = A
Inside   == (A.r /\ Ups = 0 /\ Slash(name)[1] # 47) => Prefix(Join(Comps(base)), A.out)
Relative == (A.r /\ Slash(name)[1] # 47) => A = Absolute(<<47>>, base \o <<47>> \o name, FALSE, 100)
Fits     == \A c \in 1..12 : Absolute(base, name, FALSE, c).r = (A.r /\ Len(A.out) < c)
Valid    == A.r = ValidName(name)
Slashes  == Platform(name, 100).r => \A k \in DOMAIN name : Platform(name, 100).out[k] # 92
Info     == LET p == Platform(name, 100).out IN Platform(name, 100).r =>
               /\ FileAt(p) <= ExtAt(p) /\ ExtAt(p) <= LastAt(p) /\ LastAt(p) <= Len(p)
               /\ \A k \in (FileAt(p) + 1)..Len(p) : p[k] # 47
               /\ (ExtAt(p) < Len(p) => p[ExtAt(p) + 1] = 46)
=============================================================================
