----------------------------- MODULE SharedLib ------------------------------
(* Modules bound to library files, functions bound to modules, calls.         *)
(* Libraries 1 and 2 exist (and export the functions below), 3 does not.      *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES mods,     \* module object -> library it names
          held,     \* module objects that have their library loaded
          pinned    \* libraries loaded by a one-shot call (never unloaded)
lvars == <<mods, held, pinned>>
LInit == mods = <<>> /\ held = {} /\ pinned = {}

Exists(lib) == lib \in {1, 2}
Functions(lib) == (1..8) \cup (11..13) \cup (IF lib = 2 THEN {9} ELSE {})
IsLoaded(lib) == lib \in pinned \/ \E m \in held : mods[m] = lib
Restrict(f, S) == [x \in DOMAIN f \cap S |-> f[x]]

(* Results in quarters where the function deals in floating point *)
RECURSIVE WSum(_, _)
WSum(a, k) == IF k = 0 THEN 0 ELSE WSum(a, k - 1) + k * a[k]
B2I(b) == IF b THEN 1 ELSE 0
Result(lib, fn, a) ==
  CASE fn = 1 -> 7 * lib
    [] fn = 2 -> a[1] + lib
    [] fn = 3 -> a[1] + 3 * a[2] + 5 * a[3] + 7 * a[4] + lib
    [] fn = 4 -> (a[1] + 3 * a[2] + 20 * a[3]) * lib
    [] fn = 5 -> a[2]
    [] fn = 6 -> WSum(a, 10) + lib
    [] fn = 7 -> a[1] + a[4] * lib
    [] fn = 8 -> B2I(a[1] = 1 /\ a[2] = 0)
    [] fn = 9 -> 2 * a[1]
    [] OTHER -> 0
Extra(lib, fn, a) ==
  CASE fn = 5 -> <<a[1] + lib>>
    [] fn = 7 -> <<a[2] + 4 * a[4], a[3] + 1>>
    [] OTHER -> <<>>
Seen(fn, a) == <<fn>> \o (IF fn = 5 THEN <<a[1]>> ELSE a)

NewMod(id, lib) == id \notin DOMAIN mods /\ mods' = [x \in DOMAIN mods \cup {id} |-> IF x = id THEN lib ELSE mods[x]] /\ UNCHANGED <<held, pinned>>
DelMod(id) == id \in DOMAIN mods /\ held' = held \ {id} /\ mods' = Restrict(mods, DOMAIN mods \ {id}) /\ UNCHANGED pinned
Load(id, ret) == /\ id \in DOMAIN mods /\ ret = Exists(mods[id])
                 /\ held' = IF ret THEN held \cup {id} ELSE held
                 /\ UNCHANGED <<mods, pinned>>
(* The outcome of calling fn of lib: val, what the function saw (rec), extra  *)
(* outputs.  armed: the recorder was connected before the call.               *)
Outcome(lib, fn, a, ret, val, extra, rec, armed) ==
  /\ ret = (Exists(lib) /\ fn \in Functions(lib))
  /\ ret => /\ val = Result(lib, fn, a) /\ extra = Extra(lib, fn, a)
            /\ armed => rec = Seen(fn, a)
  /\ ~ret => rec = <<>>
Call(id, fn, a, ret, val, extra, rec, armed) ==
  /\ id \in DOMAIN mods
  /\ Outcome(mods[id], fn, a, ret, val, extra, rec, armed)
  /\ held' = IF Exists(mods[id]) THEN held \cup {id} ELSE held
  /\ UNCHANGED <<mods, pinned>>
Once(lib, fn, a, ret, val, extra, rec, armed) ==
  /\ Outcome(lib, fn, a, ret, val, extra, rec, armed)
  /\ \/ ret /\ pinned' = pinned \cup {lib}
     \/ ~ret /\ pinned' \in {pinned, pinned \cup ({lib} \cap {1, 2})}
  /\ UNCHANGED <<mods, held>>
LType == held \subseteq DOMAIN mods /\ pinned \subseteq {1, 2} /\ \A m \in held : Exists(mods[m])
=============================================================================
