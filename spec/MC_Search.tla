------------------------------ MODULE MC_Search ------------------------------
(* The dictionary search as an algorithm: a depth-first walk of the prefix     *)
(* tree with one shared error matrix, which stops at hopeless prefixes. Its    *)
(* answer is Near of Columbus: exactly the words within the bound, each once,  *)
(* with their least edit cost, whatever the dictionary, the order in which it  *)
(* was filled and the nodes that failed insertions left behind.                *)
EXTENDS Errors, TLC

CONSTANTS Letters2,
          Depth,     \* longest dictionary word
          MaxQ,      \* longest query
          Dicts,     \* how many words are inserted (0: all words there are)
          BUG        \* "none", or a slip to be found

VARIABLES tree,     \* the nodes, as words, siblings in the order they were made
          words,    \* the words that were inserted
          tall,     \* the longest word ever tried
          q, ev, max,
          row,      \* the shared matrix: row[d + 1], d = 0..tall
          stack,    \* nodes still to be visited, next first
          out,      \* matches found
          phase
vars == <<tree, words, tall, q, ev, max, row, stack, out, phase>>

WordsUpTo(k) == UNION {[1..x -> Letters2] : x \in 0..k}
NonEmpty == WordsUpTo(Depth) \ {<<>>}
Tables == IF Dicts > 0 THEN {[FreshErrors EXCEPT !.tr = 10], Substring(SetPair(FreshErrors, 1, 2, 30))} ELSE {
  FreshErrors,
  [FreshErrors EXCEPT !.tr = 10],
  [FreshErrors EXCEPT !.ins = 35, !.del = 60, !.endd = 7, !.st = 9, !.lim = 2],
  [FreshErrors EXCEPT !.endd = 150, !.del = 20, !.st = 15, !.lim = 3, !.tr = 30],
  Substring(SetPair(FreshErrors, 1, 2, 30)) }
Bounds == IF Dicts > 0 THEN {15, 100, 200} ELSE {0, 15, 40, 100, 110, 200}

(* ---- filling the dictionary --------------------------------------------------- *)
Heads(w) == {SubSeq(w, 1, k) : k \in 1..Len(w)}
Extend(t, w, upto) ==   \* nodes for the first `upto` letters
  FoldLeft(LAMBDA acc, k : IF SubSeq(w, 1, k) \in Range(acc) THEN acc ELSE Append(acc, SubSeq(w, 1, k)),
           t, [k \in 1..upto |-> k])
Insert == /\ phase = "fill" /\ Dicts > 0 /\ Cardinality(words) < Dicts
          /\ \E w \in NonEmpty \ words :
               /\ tree' = Extend(tree, w, Len(w)) /\ words' = words \cup {w}
               /\ tall' = Max({tall, Len(w)})
          /\ UNCHANGED <<q, ev, max, row, stack, out, phase>>
(* an insertion that fails leaves some of the word's nodes behind *)
FailInsert == /\ phase = "fill" /\ Dicts > 0 /\ tree = <<>>
              /\ \E w \in NonEmpty : \E k \in 1..(Len(w)) :
                   /\ Heads(w) \cap Range(tree) # Heads(w)
                   /\ tree' = Extend(tree, w, k)
                   /\ tall' = IF BUG = "latetall" THEN tall ELSE Max({tall, Len(w)})
              /\ UNCHANGED <<words, q, ev, max, row, stack, out, phase>>

(* ---- searching --------------------------------------------------------------- *)
Kids(p) == SelectSeq(tree, LAMBDA x : Len(x) = Len(p) + 1 /\ SubSeq(x, 1, Len(p)) = p)
Last2(p) == IF Len(p) > 1 THEN p[Len(p) - 1] ELSE 0
Begin == /\ phase = "fill" /\ (Dicts = 0 \/ words # {} \/ tree # <<>>)
         /\ q' \in WordsUpTo(MaxQ) /\ ev' \in Tables /\ max' \in Bounds
         /\ row' = [d \in 1..(tall + 2) |-> IF d = 1 THEN FirstRow(Len(q'), ev')
                        ELSE [c \in 1..(Len(q') + 1) |-> IF c = 1 THEN (d - 1) * StartError(ev', Len(q')) ELSE -7]]
         /\ stack' = Kids(<<>>) /\ phase' = "walk"
         /\ UNCHANGED <<tree, words, tall, out>>
MinOf(s) == Min(Range(s))
Cell(p, r, c) ==    \* the cell of row Len(p), column c >= 1, from the matrix r
  LET d == Len(p)
      up == r[d] here == r[d + 1]
      del == up[c + 1] + (IF c >= Len(q) THEN ev.endd ELSE ev.del)
      ins == here[c] + ev.ins
      sub == up[c] + SubError(ev, q[c], p[d])
      tr == IF c > 1 /\ q[c] = Last2(p) /\ q[c - 1] = p[d] THEN r[d - 1][c - 1] + ev.tr ELSE ins + 10000
  IN Min({del, ins, sub, tr})
Filled(p) ==
  FoldLeft(LAMBDA r, c : [r EXCEPT ![Len(p) + 1][c + 1] = Cell(p, r, c)], row, [c \in 1..Len(q) |-> c])
GoOn(r, d) ==
  IF BUG = "oldprune" THEN MinOf(r[d + 1]) <= max
  ELSE IF BUG = "strict" THEN MinOf(r[d + 1]) < max \/ MinOf(r[d]) + ev.tr < max
  ELSE MinOf(r[d + 1]) <= max \/ MinOf(r[d]) + ev.tr <= max
Visit == /\ phase = "walk" /\ stack # <<>>
         /\ LET p == Head(stack)
                d == Len(p)
                r == Filled(p)
                total == r[d + 1][Len(q) + 1] IN
            /\ d + 1 <= Len(row)      \* inside the matrix
            /\ row' = r
            /\ out' = IF total <= max /\ p \in words THEN Append(out, <<p, total>>) ELSE out
            /\ stack' = (IF GoOn(r, d) THEN Kids(p) ELSE <<>>) \o Tail(stack)
         /\ UNCHANGED <<tree, words, tall, q, ev, max, phase>>
Finish == phase = "walk" /\ stack = <<>> /\ phase' = "done" /\ UNCHANGED <<tree, words, tall, q, ev, max, row, stack, out>>

AllTree == LET S == SortedWords(NonEmpty) IN
           FoldLeft(LAMBDA acc, w : Append(acc, w), <<>>, S)
Init == /\ q = <<>> /\ ev = FreshErrors /\ max = 0
        /\ row = <<>> /\ stack = <<>> /\ out = <<>> /\ phase = "fill"
        /\ IF Dicts = 0 THEN tree = AllTree /\ words = NonEmpty /\ tall = Depth
                        ELSE tree = <<>> /\ words = {} /\ tall = 0
Next == Insert \/ FailInsert \/ Begin \/ Visit \/ Finish
Spec == Init /\ [][Next]_vars

Want == {<<w, EditCost(q, w, ev)>> : w \in {w \in words : EditCost(q, w, ev) <= max}}
Answer == phase = "done" => Range(out) = Want /\ Len(out) = Cardinality(Want)
(* the rows above the node being visited are those of its own prefixes *)
RowsOf(p) == phase = "walk" /\ stack # <<>> =>
   \A d \in 1..(Len(Head(stack)) - 1) :
      row[d + 1][Len(q) + 1] = EditCost(q, SubSeq(Head(stack), 1, d), ev)
OwnRows == RowsOf(0)
InsideMatrix == phase = "walk" /\ stack # <<>> => Len(Head(stack)) + 1 <= Len(row)
=============================================================================
