-------------------------------- MODULE MC_Live --------------------------------
(* C24. Objects handed out by other objects (the error values and weights of a *)
(* matcher, a word of a list, a document of a corpus) act on, or keep alive,   *)
(* the object they came from; reading them after the script has dropped its    *)
(* own reference is well defined and tells the owner's present value.          *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS BUG, Depth
VARIABLES owner,   \* native owners: id -> value, for those not freed
          refs,    \* script variables holding owners
          parts,   \* script variables holding parts: variable -> owner id
          from,    \* the owner the script asked for that part
          next, bad, steps
vars == <<owner, refs, parts, from, next, bad, steps>>
Vars == {"x", "y"}
Init == owner = <<>> /\ refs = <<>> /\ parts = <<>> /\ from = <<>> /\ next = 1 /\ bad = FALSE /\ steps = 0
Keeps == {refs[v] : v \in DOMAIN refs} \cup (IF BUG = "nokeep" THEN {} ELSE {parts[v] : v \in DOMAIN parts})
Collected(r, p, o) == LET k == {r[v] : v \in DOMAIN r} \cup (IF BUG = "nokeep" THEN {} ELSE {p[v] : v \in DOMAIN p}) IN
                      [i \in DOMAIN o \cap k |-> o[i]]
Del(f, v) == [w \in DOMAIN f \ {v} |-> f[w]]
Make == \E v \in Vars : /\ next < 4 /\ refs' = (v :> next) @@ refs /\ next' = next + 1
                        /\ owner' = Collected(refs', parts, (next :> 0) @@ owner) /\ UNCHANGED <<parts, from, bad>>
Part == \E v \in Vars, s \in DOMAIN refs :
           /\ parts' = (v :> IF BUG = "copypart" THEN next ELSE refs[s]) @@ parts
           /\ from' = (v :> refs[s]) @@ from
           /\ next' = IF BUG = "copypart" THEN next + 1 ELSE next
           /\ owner' = Collected(refs, parts', IF BUG = "copypart" THEN (next :> owner[refs[s]]) @@ owner ELSE owner)
           /\ UNCHANGED <<refs, bad>>
DropRef == \E v \in DOMAIN refs : refs' = Del(refs, v) /\ owner' = Collected(refs', parts, owner) /\ UNCHANGED <<parts, from, next, bad>>
DropPart == \E v \in DOMAIN parts : parts' = Del(parts, v) /\ from' = Del(from, v) /\ owner' = Collected(refs, parts', owner) /\ UNCHANGED <<refs, next, bad>>
Set == \E v \in DOMAIN parts :
         /\ bad' = (bad \/ parts[v] \notin DOMAIN owner)
         /\ owner' = [i \in DOMAIN owner |-> IF i = parts[v] THEN owner[i] + 1 ELSE owner[i]]
         /\ UNCHANGED <<refs, parts, from, next>>
Next == steps < Depth /\ steps' = steps + 1 /\ (Make \/ Part \/ DropRef \/ DropPart \/ Set)
Spec == Init /\ [][Next]_vars
NeverDangling == ~bad
ActsOnOwner == parts = from
NoLeak == DOMAIN owner = Keeps
=============================================================================
