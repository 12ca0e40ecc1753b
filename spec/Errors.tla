------------------------------- MODULE Errors -------------------------------
(* Error tables: what each kind of difference between two words costs.       *)
EXTENDS Letters, TLC

DefaultError == 100
GroupError == 30
TypoError == 30
SubstringError == 15
SubstringLimit == 3

FreshErrors ==
  [ins |-> 100, del |-> 100, endd |-> 100, st |-> 100, tr |-> 100, lim |-> 0,
   pairs |-> <<>>, grp |-> <<>>, gerr |-> <<>>]

Pair(x, y) == IF x <= y THEN <<x, y>> ELSE <<y, x>>

SubError(ev, x, y) ==
  IF x = y THEN 0
  ELSE IF Pair(x, y) \in DOMAIN ev.pairs THEN ev.pairs[Pair(x, y)]
  ELSE IF x \in DOMAIN ev.grp /\ y \in DOMAIN ev.grp /\ ev.grp[x] = ev.grp[y]
       THEN ev.gerr[ev.grp[x]]
  ELSE DefaultError

SetPair(ev, x, y, e) == [ev EXCEPT !.pairs = (Pair(x, y) :> e) @@ @]

GroupClash(ev, ls) == \E i \in 1..Len(ls) : ls[i] \in DOMAIN ev.grp
AddGroup(ev, ls, e) ==
  [ev EXCEPT !.gerr = Append(@, e),
             !.grp = [l \in Range(ls) |-> Len(ev.gerr) + 1] @@ @]

(* a data file: its lines, each a byte sequence. Lines are applied in order;  *)
(* reading stops at a line that is refused, and the call is then refused.     *)
AddLines(ev, lines) ==
  LET step(acc, line) ==
        IF ~acc.ok THEN acc
        ELSE LET w == TextWord(line) IN
             IF ~w.ok THEN [acc EXCEPT !.ok = FALSE]
             ELSE IF w.v = <<>> THEN acc
             ELSE IF GroupClash(acc.ev, w.v) THEN [acc EXCEPT !.ok = FALSE]
             ELSE [acc EXCEPT !.ev = AddGroup(acc.ev, w.v, GroupError)]
  IN FoldLeft(step, [ok |-> TRUE, ev |-> ev], lines)

(* ---- Finnish keyboard ------------------------------------------------------ *)
KbdRows == << <<49, 50, 51, 52, 53, 54, 55, 56, 57, 48, 43>>,                 \* 1..9 0 +
              <<113, 119, 101, 114, 116, 121, 117, 105, 111, 112, 229>>,       \* qwertyuiop å
              <<97, 115, 100, 102, 103, 104, 106, 107, 108, 246, 228, 39>>,    \* asdfghjkl ö ä '
              <<122, 120, 99, 118, 98, 110, 109, 44, 46, 45>> >>               \* zxcvbnm , . -
KbdKeys == {<<r, i>> \in (1..4) \X (1..12) : i <= Len(KbdRows[r])}
KbdNeighbours(a, b) ==   \* a is the upper or left key
  \/ a[1] = b[1] /\ b[2] = a[2] + 1
  \/ b[1] = a[1] + 1 /\ b[2] \in {a[2], a[2] - 1}
KbdPairs == {Pair(KbdRows[x[1]][x[2]], KbdRows[y[1]][y[2]]) :
                x \in KbdKeys, y \in KbdKeys} \cap
            UNION {{Pair(KbdRows[x[1]][x[2]], KbdRows[y[1]][y[2]]) :
                y \in {y \in KbdKeys : KbdNeighbours(x, y)}} : x \in KbdKeys}
AddKeyboard(ev) == [ev EXCEPT !.pairs = [p \in KbdPairs |-> TypoError] @@ @]

(* ---- number pad ------------------------------------------------------------ *)
PadLetters == << <<>>, <<97, 98, 99>>, <<100, 101, 102>>,
                 <<103, 104, 105>>, <<106, 107, 108>>, <<109, 110, 111>>,
                 <<112, 113, 114, 115>>, <<116, 117, 118>>, <<119, 120, 121, 122>> >>
PadRow(d) == (d - 1) \div 3
PadCol(d) == (d - 1) % 3
PadAdjacent(d, e) ==
  \/ PadRow(d) = PadRow(e) /\ (PadCol(d) = PadCol(e) + 1 \/ PadCol(e) = PadCol(d) + 1)
  \/ PadCol(d) = PadCol(e) /\ (PadRow(d) = PadRow(e) + 1 \/ PadRow(e) = PadRow(d) + 1)
PadOwn == UNION {{<<48 + d, l>> : l \in Range(PadLetters[d])} : d \in 1..9}
PadNear == UNION {UNION {{<<48 + d, l>> : l \in Range(PadLetters[e])} :
                         e \in {e \in 1..9 : PadAdjacent(d, e)}} : d \in 1..9}
AddPad(ev) == [ev EXCEPT !.pairs = [p \in PadOwn |-> 0] @@ [p \in PadNear |-> 50] @@ @]

ClearErrors(ev) == [ev EXCEPT !.pairs = <<>>, !.grp = <<>>, !.gerr = <<>>]
Substring(ev) == [ev EXCEPT !.st = SubstringError, !.endd = SubstringError, !.lim = SubstringLimit]
StartError(ev, n) == IF n >= ev.lim THEN ev.st ELSE ev.ins

(* ---- least edit cost --------------------------------------------------------- *)
Min2(a, b) == IF a < b THEN a ELSE b

(* The least total cost of an alignment, by rows: row d holds, for each        *)
(* i in 0..Len(q), the cost of aligning q[1..i] with w[1..d].                  *)
FirstRow(n, ev) == [i \in 1..(n + 1) |-> (i - 1) * ev.ins]
Row(q, w, ev, d, prev, prev2) ==
  LET n == Len(q)
      cell(acc, i) ==
        LET del == prev[i+1] + (IF i >= n THEN ev.endd ELSE ev.del)
            ins == acc[i] + ev.ins
            sub == prev[i] + SubError(ev, q[i], w[d])
            m == Min2(del, Min2(ins, sub))
        IN Append(acc, IF i > 1 /\ d > 1 /\ q[i] = w[d-1] /\ q[i-1] = w[d]
                       THEN Min2(m, prev2[i-1] + ev.tr) ELSE m)
  IN FoldLeft(cell, <<d * StartError(ev, n)>>, [i \in 1..n |-> i])
EditCost(q, w, ev) ==
  LET step(acc, d) == [cur |-> Row(q, w, ev, d, acc.cur, acc.prev), prev |-> acc.cur]
      last == FoldLeft(step, [cur |-> FirstRow(Len(q), ev), prev |-> <<>>],
                       [d \in 1..Len(w) |-> d])
  IN last.cur[Len(q) + 1]
=============================================================================
