------------------------------- MODULE MC_Edit -------------------------------
(* EditCost (computed row by row) is the least cost over all edit scripts.     *)
(* A script walks the query and the dictionary word together; every letter     *)
(* takes part in one operation. All words up to a length over two letters, a set *)
(* of error tables chosen so that every operation is the cheapest somewhere.   *)
EXTENDS Errors, TLC

CONSTANTS MaxQ, MaxW, Letters2, BUG

VARIABLES q, w, ev, i, j, cost
vars == <<q, w, ev, i, j, cost>>

WordsUpTo(n) == UNION {[1..k -> Letters2] : k \in 0..n}
Tables == {
  FreshErrors,
  [FreshErrors EXCEPT !.tr = 10],
  [FreshErrors EXCEPT !.tr = 310],
  [FreshErrors EXCEPT !.ins = 35, !.del = 60, !.endd = 7, !.st = 9, !.lim = 2],
  [FreshErrors EXCEPT !.ins = 5, !.del = 70, !.endd = 90, !.st = 80, !.lim = 0],
  [FreshErrors EXCEPT !.endd = 150, !.del = 20, !.st = 15, !.lim = 3, !.tr = 30],
  Substring(SetPair(FreshErrors, 1, 2, 30)),
  SetPair([FreshErrors EXCEPT !.ins = 0], 1, 2, 250) }

Init == /\ q \in WordsUpTo(MaxQ) /\ w \in WordsUpTo(MaxW) /\ ev \in Tables
        /\ i = 0 /\ j = 0 /\ cost = 0
Op(di, dj, c) == i' = i + di /\ j' = j + dj /\ cost' = cost + c /\ UNCHANGED <<q, w, ev>>
n == Len(q)
m == Len(w)
Extra == IF i = 0 THEN StartError(ev, n) ELSE IF i = n THEN ev.endd ELSE ev.del
Next ==
  \/ i < n /\ j < m /\ Op(1, 1, SubError(ev, q[i+1], w[j+1]))
  \/ i < n /\ Op(1, 0, ev.ins)
  \/ j < m /\ Op(0, 1, Extra)
  \/ /\ i + 1 < n /\ j + 1 < m /\ q[i+1] = w[j+2] /\ q[i+2] = w[j+1]
     /\ Op(2, 2, ev.tr)
Spec == Init /\ [][Next]_vars

(* the least cost of finishing from (x, y), by trying everything *)
RECURSIVE Rest(_, _)
Rest(x, y) ==
  IF x = n /\ y = m THEN 0
  ELSE Min( (IF x < n /\ y < m THEN {SubError(ev, q[x+1], w[y+1]) + Rest(x+1, y+1)} ELSE {})
       \cup (IF x < n THEN {ev.ins + Rest(x+1, y)} ELSE {})
       \cup (IF y < m THEN {(IF x = 0 THEN StartError(ev, n) ELSE IF x = n THEN ev.endd ELSE ev.del) + Rest(x, y+1)} ELSE {})
       \cup (IF x + 1 < n /\ y + 1 < m /\ q[x+1] = w[y+2] /\ q[x+2] = w[y+1]
             THEN {ev.tr + Rest(x+2, y+2)} ELSE {}))

Claimed == IF BUG = "lastdel"       \* a slip: the deletion before the last letter priced as an end deletion
           THEN EditCost(q, w, [ev EXCEPT !.del = ev.endd])
           ELSE IF BUG = "notrans" THEN EditCost(q, w, [ev EXCEPT !.tr = 100000])
           ELSE EditCost(q, w, ev)
(* no script is cheaper, and some script costs exactly that much *)
NoneCheaper == i = n /\ j = m => cost >= Claimed
Attained == i = 0 /\ j = 0 /\ cost = 0 => Claimed = Rest(0, 0)

(* consequences used elsewhere *)
SelfZero == i = 0 /\ j = 0 /\ q = w => Claimed = 0
PrefixRow ==     \* the first column and row are what the search sets up beforehand
  i = 0 /\ j = 0 => /\ (w = <<>> => Claimed = n * ev.ins)
                    /\ (q = <<>> => Claimed = m * StartError(ev, 0))
(* substring mode: a word that contains the query costs at most 15 per extra letter *)
Inside == {k \in 0..(m - n) : SubSeq(w, k + 1, k + n) = q}
SubstringDiscount ==
  i = 0 /\ j = 0 /\ ev.st = 15 /\ ev.endd = 15 /\ ev.lim = 3 /\ n >= 1 /\ Inside # {} =>
     Claimed <= Min({(IF n >= 3 THEN 15 ELSE ev.ins) * k + 15 * (m - n - k) : k \in Inside})
=============================================================================
