----------------------------- MODULE MC_Results -----------------------------
(* Result lists as they are kept: entries in a vector which is put in order    *)
(* only when it is read, with a flag that says whether it is. Two lists, every *)
(* interleaving of additions, merges, copies, moves, assignments and reads:    *)
(* what is read is always Reading of the entries of Columbus.                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

CONSTANTS MaxLen, Depth, BUG

VARIABLES vec, sorted,     \* implementation, per list
          val,             \* specification: entries in the order they were added
          seen, steps, id
vars == <<vec, sorted, val, seen, steps, id>>

O == {"p", "r"}
Ranks == {1, 2}
\* by falling rank, among equals in order of position
Ordered(v) ==
  LET less(a, b) == v[a][2] > v[b][2] \/ (v[a][2] = v[b][2] /\ a < b)
      ix == SetToSortSeq(DOMAIN v, less)
  IN [k \in DOMAIN v |-> v[ix[k]]]
Unstable(v) ==
  LET less(a, b) == v[a][2] > v[b][2] \/ (v[a][2] = v[b][2] /\ a > b)
      ix == SetToSortSeq(DOMAIN v, less)
  IN [k \in DOMAIN v |-> v[ix[k]]]
Sort(v) == IF BUG = "unstable" THEN Unstable(v) ELSE Ordered(v)
Tidy(o) == IF sorted[o] THEN vec[o] ELSE Sort(vec[o])

Init == /\ vec = [o \in O |-> <<>>] /\ sorted = [o \in O |-> TRUE] /\ val = [o \in O |-> <<>>]
        /\ seen = <<>> /\ steps = 0 /\ id = 1
Same == UNCHANGED seen
Add == \E o \in O, k \in Ranks :
  /\ Len(vec[o]) < MaxLen
  /\ vec' = [vec EXCEPT ![o] = Append(@, <<id, k>>)]
  /\ sorted' = [sorted EXCEPT ![o] = IF BUG = "addkeeps" THEN @ ELSE FALSE]
  /\ val' = [val EXCEPT ![o] = Append(@, <<id, k>>)] /\ id' = id + 1 /\ Same
AddAll == \E o, s \in O :
  /\ o # s /\ Len(vec[o]) + Len(vec[s]) <= MaxLen
  /\ vec' = [vec EXCEPT ![o] = @ \o vec[s]]
  /\ sorted' = [sorted EXCEPT ![o] = IF BUG = "mergeflag" THEN @ /\ sorted[s] ELSE FALSE]
  /\ val' = [val EXCEPT ![o] = @ \o val[s]] /\ UNCHANGED id /\ Same
Copy == \E o, s \in O :
  /\ o # s
  /\ vec' = [vec EXCEPT ![o] = vec[s]]
  /\ sorted' = [sorted EXCEPT ![o] = IF BUG = "copyflag" THEN TRUE ELSE sorted[s]]
  /\ val' = [val EXCEPT ![o] = val[s]] /\ UNCHANGED id /\ Same
Move == \E o, s \in O :
  /\ o # s
  /\ vec' = [vec EXCEPT ![o] = vec[s], ![s] = <<>>]
  /\ sorted' = [sorted EXCEPT ![o] = IF BUG = "moveflag" THEN @ ELSE sorted[s], ![s] = TRUE]
  /\ val' = [val EXCEPT ![o] = val[s], ![s] = <<>>] /\ UNCHANGED id /\ Same
CopyOne == \E o, s \in O : \E i \in 1..Len(vec[s]) :
  /\ Len(vec[o]) < MaxLen
  /\ LET src == IF BUG = "onelazy" THEN vec[s] ELSE Tidy(s)
         v2 == [vec EXCEPT ![s] = src] IN
     vec' = [v2 EXCEPT ![o] = Append(@, src[i])]
  /\ sorted' = [[sorted EXCEPT ![s] = IF BUG = "onelazy" THEN @ ELSE TRUE] EXCEPT ![o] = FALSE]
  /\ val' = [val EXCEPT ![o] = Append(@, Ordered(val[s])[i])] /\ UNCHANGED id /\ Same
Read == \E o \in O :
  /\ vec' = [vec EXCEPT ![o] = Tidy(o)] /\ sorted' = [sorted EXCEPT ![o] = TRUE]
  /\ UNCHANGED <<val, id>> /\ Same
Next == steps < Depth /\ steps' = steps + 1 /\ (Add \/ AddAll \/ Copy \/ Move \/ CopyOne \/ Read)
Spec == Init /\ [][Next]_vars

ReadsRight == \A o \in O : Tidy(o) = Ordered(val[o])
Sizes == \A o \in O : Len(vec[o]) = Len(val[o])
FlagTrue == \A o \in O : sorted[o] => vec[o] = Ordered(vec[o])
=============================================================================
