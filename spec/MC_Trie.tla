------------------------------- MODULE MC_Trie -------------------------------
(* A word store as it is built: a prefix tree kept as an array of records in a *)
(* growing, mapped temporary file, and a table from identifier to tree node.   *)
(* Every step that can fail (enlarging, mapping, unmapping) may fail. Refines  *)
(* the store of Columbus: known words, identifiers and the words they map back *)
(* to are those of the calls that succeeded - between calls, and all through   *)
(* each call.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

CONSTANTS Letters2, MaxLen, MaxWords, MaxFaults,
          Initial,   \* first size of the file
          BUG

HEADER == 16  NODE == 8  PTR == 12
ROOT == HEADER
NoWord == -1

VARIABLES mem,      \* what the map holds: address -> record
          old,      \* what a released map held (a write through a stale pointer goes there)
          total, free,     \* the header
          file,     \* size of the file
          map,      \* size mapped, 0: no mapping
          maps, fds,       \* mappings and descriptors held
          index,    \* identifier -> node
          call,     \* the call under way
          given,    \* specification: words in the order of their identifiers
          faults
vars == <<mem, old, total, free, file, map, maps, fds, index, call, given, faults>>

Words == UNION {[1..k -> Letters2] : k \in 0..MaxLen}
Idle == [at |-> "idle"]
Node(parent) == [t |-> "node", word |-> NoWord, parent |-> parent]
Ptrs(l, child, sib) == [t |-> "ptrs", l |-> l, child |-> child, sib |-> sib]

Init == /\ mem = (ROOT :> Node(0)) @@ (ROOT + NODE :> Ptrs(0, 0, 0))
        /\ old = <<>> /\ total = Initial /\ free = ROOT + NODE + PTR
        /\ file = Initial /\ map = Initial /\ maps = 1 /\ fds = 1
        /\ index = <<>> /\ call = Idle /\ given = <<>> /\ faults = 0

(* ---- reading ---------------------------------------------------------------- *)
\* where letter l is in the chain that starts at address s: <<found, address of the pair>>
RECURSIVE Chain(_, _)
Chain(s, l) == LET p == mem[s] IN
  IF p.l = l THEN <<TRUE, s>> ELSE IF p.sib = 0 THEN <<FALSE, s>> ELSE Chain(p.sib, l)
RECURSIVE Find(_, _)     \* node of word w below node, 0 if there is none
Find(node, w) ==
  IF w = <<>> THEN node
  ELSE LET c == Chain(node + NODE, Head(w)) IN
       IF c[1] THEN Find(mem[c[2]].child, Tail(w)) ELSE 0
HasWord(w) == LET nd == Find(ROOT, w) IN nd # 0 /\ mem[nd].word # NoWord
RECURSIVE SiblingTo(_, _)
SiblingTo(s, child) == IF mem[s].child = child THEN s ELSE SiblingTo(mem[s].sib, child)
RECURSIVE WordAt(_)
WordAt(node) == LET p == mem[node].parent IN
  IF p = 0 THEN <<>> ELSE Append(WordAt(p), mem[SiblingTo(mem[p + NODE].sib, node)].l)

(* ---- asking for a word's identifier ---------------------------------------------- *)
Begin == /\ call = Idle /\ Len(given) < MaxWords
         /\ \E w \in Words : /\ ~HasWord(w)
                             /\ call' = [at |-> "walk", w |-> w, i |-> 1, node |-> ROOT]
         /\ index' = IF BUG = "earlyid" THEN Append(index, 0) ELSE index
         /\ UNCHANGED <<mem, old, total, free, file, map, maps, fds, given, faults>>
Walk == /\ call.at = "walk"
        /\ IF call.i > Len(call.w)
           THEN call' = [call EXCEPT !.at = "final"]
           ELSE LET c == Chain(call.node + NODE, call.w[call.i]) IN
                IF c[1] THEN call' = [call EXCEPT !.i = @ + 1, !.node = mem[c[2]].child]
                ELSE call' = [at |-> "node", w |-> call.w, i |-> call.i, node |-> call.node, sib |-> c[2],
                              stale |-> FALSE, child |-> 0]
        /\ UNCHANGED <<mem, old, total, free, file, map, maps, fds, index, given, faults>>
Room(n) == free + n < total
PutRec(r, n, next) == /\ Room(n) /\ mem' = (free :> r) @@ mem /\ free' = free + n
                      /\ call' = next
                      /\ UNCHANGED <<old, total, file, map, maps, fds, index, given, faults>>
NewNode == call.at = "node" /\ PutRec(Node(call.node), NODE, [call EXCEPT !.at = "ptrs", !.child = free])
NewPtrs == call.at = "ptrs" /\ PutRec(Ptrs(0, 0, 0), PTR, [call EXCEPT !.at = "sibling"])
NewSibling == call.at = "sibling" /\
              PutRec(Ptrs(call.w[call.i], call.child, 0), PTR, [call EXCEPT !.at = "link"])
Link == /\ call.at = "link"
        /\ LET new == free - PTR IN
           IF BUG = "stale" /\ call.stale THEN mem' = mem   \* written where the map used to be
           ELSE mem' = [mem EXCEPT ![call.sib].sib = new]
        /\ call' = [at |-> "walk", w |-> call.w, i |-> call.i + 1, node |-> call.child]
        /\ UNCHANGED <<old, total, free, file, map, maps, fds, index, given, faults>>
Final == /\ call.at = "final"
         /\ mem' = [mem EXCEPT ![call.node].word = IF BUG = "earlyid" THEN Len(index) - 1 ELSE Len(index)]
         /\ call' = [call EXCEPT !.at = "number"]
         /\ UNCHANGED <<old, total, free, file, map, maps, fds, index, given, faults>>
Number == /\ call.at = "number"
          /\ index' = IF BUG = "earlyid" THEN [index EXCEPT ![Len(index)] = call.node] ELSE Append(index, call.node)
          /\ given' = Append(given, call.w)
          /\ call' = Idle
          /\ UNCHANGED <<mem, old, total, free, file, map, maps, fds, faults>>

(* ---- growing --------------------------------------------------------------------- *)
Needs == CASE call.at = "node" -> NODE [] call.at \in {"ptrs", "sibling"} -> PTR [] OTHER -> 0
Abort == call' = Idle /\ faults' = faults + 1 /\ UNCHANGED <<index, given, free, mem, old>>
MayFail == faults < MaxFaults
Truncate == /\ Needs > 0 /\ ~Room(Needs) /\ file < 2 * total
            /\ \/ /\ file' = 2 * total /\ total' = (IF BUG = "totalfirst" THEN 2 * total ELSE total)
                  /\ UNCHANGED <<mem, old, free, map, maps, fds, index, call, given, faults>>
               \/ MayFail /\ Abort /\ UNCHANGED <<total, file, map, maps, fds>>
Mapped == (call.at \in {"node", "ptrs", "sibling"} /\ BUG = "totalfirst") \/ ~Room(Needs)
Remap ==   \* the file is large enough: map it anew, then give the old mapping up
  /\ Needs > 0 /\ file > map /\ Mapped
  /\ \/ /\ map' = file /\ total' = file /\ UNCHANGED <<maps, fds, file>>
        /\ call' = [call EXCEPT !.stale = TRUE]
        /\ UNCHANGED <<mem, old, free, index, given, faults>>
     \/ /\ MayFail /\ Abort      \* no new mapping
        /\ IF BUG = "unmapfirst" THEN map' = 0 /\ maps' = 0 /\ UNCHANGED <<total, fds, file>>
           ELSE UNCHANGED <<total, file, map, maps, fds>>
     \/ /\ MayFail /\ Abort      \* the old one cannot be given up: the new one is
        /\ maps' = IF BUG = "leakmap" THEN maps + 1 ELSE maps
        /\ UNCHANGED <<total, file, map, fds>>
Next == Begin \/ Walk \/ NewNode \/ NewPtrs \/ NewSibling \/ Link \/ Final \/ Number \/ Truncate \/ Remap
Spec == Init /\ [][Next]_vars

(* ---- what must hold ----------------------------------------------------------------- *)
Given == Range(given)
Settled == call.at \notin {"number"}      \* the word under way is known just before it is numbered
Known == Settled => \A w \in Words : HasWord(w) <=> w \in Given
NumbersRight ==
  /\ call = Idle => Len(index) = Len(given)
  /\ Len(index) >= Len(given)
  /\ \A k \in 1..Len(given) : /\ index[k] \in DOMAIN mem
                              /\ mem[index[k]].word = k - 1
                              /\ WordAt(index[k]) = given[k]
Dense == \A j, k \in 1..Len(given) : given[j] = given[k] => j = k
SizeOf(r) == IF r.t = "node" THEN NODE ELSE PTR
InsideMap == /\ map > 0 /\ free < total /\ total <= map
             /\ \A x \in DOMAIN mem : x >= HEADER /\ x + SizeOf(mem[x]) <= free
NoOverlap == \A x, y \in DOMAIN mem : x < y => x + SizeOf(mem[x]) <= y
Held == maps = 1 /\ fds = 1 /\ map <= file
Linked == \A x \in DOMAIN mem : mem[x].t = "ptrs" =>
            (mem[x].sib # 0 => mem[x].sib \in DOMAIN mem) /\ (mem[x].child # 0 => mem[x].child \in DOMAIN mem)
(* a call that can be finished is: nothing is ever stuck half way *)
Progress == call = Idle \/ ENABLED Next
=============================================================================
