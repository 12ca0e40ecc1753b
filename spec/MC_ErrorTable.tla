---------------------------- MODULE MC_ErrorTable ----------------------------
(* Substitution errors as they are stored: a square look-up table for the low  *)
(* letters, a map of single pairs, a map from letter to group and the errors   *)
(* of the groups. After every call the stored table answers as the rule of     *)
(* Errors (SubError) does, for all letters, low and high, in both orders; a    *)
(* refused group changes nothing, also when only its last letter clashes.      *)
EXTENDS Errors

CONSTANTS Low,        \* letters below this have table entries
          Top,        \* letters 1..Top
          Depth, BUG

VARIABLES ev,               \* specification
          lut, pairs, group, gerr,   \* implementation
          refused, steps
vars == <<ev, lut, pairs, group, gerr, refused, steps>>

L == 0..Top
FreshLut == [x \in (0..(Low-1)) \X (0..(Low-1)) |-> IF x[1] = x[2] THEN 0 ELSE DefaultError]
Init == /\ ev = FreshErrors /\ lut = FreshLut /\ pairs = <<>> /\ group = <<>> /\ gerr = <<>>
        /\ refused = FALSE /\ steps = 0

Slow(ps, g, ge, x, y) ==
  IF x = y THEN 0
  ELSE IF Pair(x, y) \in DOMAIN ps THEN ps[Pair(x, y)]
  ELSE IF x \in DOMAIN g /\ y \in DOMAIN g /\ g[x] = g[y] THEN ge[g[x]]
  ELSE DefaultError
Look(x, y) == IF x < Low /\ y < Low THEN lut[<<x, y>>] ELSE Slow(pairs, group, gerr, x, y)
ToLut(t, x, y, v) == IF x < Low /\ y < Low THEN [t EXCEPT ![<<x, y>>] = v, ![<<y, x>>] = v] ELSE t
OneSided(t, x, y, v) == IF x < Low /\ y < Low THEN [t EXCEPT ![<<x, y>>] = v] ELSE t

SetOne == \E x, y \in L, e \in {0, 30, 70} :
  LET ps == (Pair(x, y) :> e) @@ pairs
      v == IF BUG = "selfpair" THEN e ELSE Slow(ps, group, gerr, x, y) IN
  /\ ev' = SetPair(ev, x, y, e) /\ pairs' = ps
  /\ lut' = IF BUG = "onesided" THEN OneSided(lut, x, y, v) ELSE ToLut(lut, x, y, v)
  /\ refused' = FALSE /\ UNCHANGED <<group, gerr>>
Groups == {s \in UNION {[1..k -> L] : k \in 1..3} : \A i, j \in DOMAIN s : s[i] = s[j] => i = j}
SetMany == \E ls \in Groups, e \in {20, 50} :
  LET clash == \E i \in DOMAIN ls : ls[i] \in DOMAIN group
      id == Len(gerr) + 1
      g == [l \in Range(ls) |-> id] @@ group
      ge == Append(gerr, e)
      partial == LET k == Min({i \in DOMAIN ls : ls[i] \in DOMAIN group}) IN
                 [l \in {ls[i] : i \in 1..(k-1)} |-> id] @@ group
      fill == FoldLeft(LAMBDA t, p : IF p[1] = p[2] THEN t
                          ELSE ToLut(t, p[1], p[2], IF BUG = "groupover" THEN e ELSE Slow(pairs, g, ge, p[1], p[2])),
                       lut, SetToSeq(Range(ls) \X Range(ls)))
  IN /\ ev' = IF GroupClash(ev, ls) THEN ev ELSE AddGroup(ev, ls, e)
     /\ refused' = clash /\ clash = GroupClash(ev, ls)
     /\ IF clash THEN IF BUG = "partial" THEN group' = partial /\ gerr' = ge /\ UNCHANGED lut
                      ELSE UNCHANGED <<group, gerr, lut>>
        ELSE group' = g /\ gerr' = ge /\ lut' = fill
     /\ UNCHANGED pairs
Clear == /\ ev' = ClearErrors(ev) /\ pairs' = <<>> /\ group' = <<>> /\ gerr' = <<>>
         /\ lut' = IF BUG = "clearlut" THEN lut ELSE FreshLut
         /\ refused' = FALSE
Next == steps < Depth /\ steps' = steps + 1 /\ (SetOne \/ SetMany \/ Clear)
Spec == Init /\ [][Next]_vars

OneRule == \A x, y \in L : Look(x, y) = SubError(ev, x, y)
Both == \A x, y \in L : Look(x, y) = Look(y, x)
Members == DOMAIN group = DOMAIN ev.grp
SelfFree == \A x \in L : Look(x, x) = 0
=============================================================================
