-------------------------------- MODULE MC_Own --------------------------------
(* Values that own a block of memory (words; with them lists, documents,       *)
(* corpora and results): construction, copies, moves, assignments - to         *)
(* themselves too -, assignments of text that is refused half way, and         *)
(* destruction. Every block has one owner, nothing is freed twice, used after  *)
(* being freed or lost, and contents are those of the independent values of    *)
(* Columbus (C02, C23; the C interface adds blocks that a failed call must     *)
(* give back).                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Depth, BUG
VARIABLES ptr,     \* object -> block (0: none), for objects alive
          len,
          mem,     \* block -> contents, for blocks held
          spec,    \* specification: object -> contents
          bad, steps
vars == <<ptr, len, mem, spec, bad, steps>>

O == {"u", "v"}
Texts == {<<>>, <<1>>, <<1, 2>>}
Alive == DOMAIN ptr
New == CHOOSE k \in 1..20 : k \notin DOMAIN mem
Free(m, k) == [x \in DOMAIN m \ {k} |-> m[x]]
Init == ptr = <<>> /\ len = <<>> /\ mem = <<>> /\ spec = <<>> /\ bad = FALSE /\ steps = 0
FreeBad(k) == k # 0 /\ k \notin DOMAIN mem     \* freed twice
With(f, o, x) == (o :> x) @@ f

Make == \E o \in O \ Alive, txt \in Texts :
  LET k == New IN
  /\ ptr' = With(ptr, o, k) /\ len' = With(len, o, Len(txt)) /\ mem' = With(mem, k, txt)
  /\ spec' = With(spec, o, txt) /\ UNCHANGED bad
(* refused: the block made on the way is given back, no object comes to be *)
MakeRefused == \E o \in O \ Alive :
  /\ mem' = IF BUG = "leakonrefuse" THEN With(mem, New, <<9>>) ELSE mem
  /\ UNCHANGED <<ptr, len, spec, bad>>
CopyTo(o, s, was) ==     \* was: the block o had
  IF o = s /\ BUG # "noselfcheck" THEN UNCHANGED <<ptr, len, mem, spec, bad>>
  ELSE LET m1 == IF was # 0 /\ BUG # "noFree" THEN Free(mem, was) ELSE mem
           k == CHOOSE k \in 1..20 : k \notin DOMAIN m1
           src == ptr[s] IN
       /\ bad' = (bad \/ FreeBad(was) \/ (len[s] > 0 /\ src \notin DOMAIN m1))
       /\ IF BUG = "shallow" THEN ptr' = With(ptr, o, src) /\ mem' = m1
          ELSE IF len[s] = 0 THEN ptr' = With(ptr, o, 0) /\ mem' = m1
          ELSE ptr' = With(ptr, o, k) /\ mem' = With(m1, k, IF src \in DOMAIN m1 THEN m1[src] ELSE <<7>>)
       /\ len' = With(len, o, len[s]) /\ spec' = With(spec, o, spec[s])
Copy == \E o \in O \ Alive, s \in Alive : CopyTo(o, s, 0)
Assign == \E o, s \in Alive : CopyTo(o, s, ptr[o])
Move == \E o \in O \ Alive, s \in Alive :
  /\ ptr' = With(With(ptr, o, ptr[s]), s, IF BUG = "movekeeps" THEN ptr[s] ELSE 0)
  /\ len' = With(With(len, o, len[s]), s, 0)
  /\ spec' = With(With(spec, o, spec[s]), s, <<>>) /\ UNCHANGED <<mem, bad>>
MoveAssign == \E o, s \in Alive :
  /\ o # s
  /\ mem' = (IF ptr[o] = 0 \/ BUG = "moveleak" THEN mem ELSE Free(mem, ptr[o])) /\ bad' = (bad \/ FreeBad(ptr[o]))
  /\ ptr' = With(With(ptr, o, ptr[s]), s, 0)
  /\ len' = With(With(len, o, len[s]), s, 0)
  /\ spec' = With(With(spec, o, spec[s]), s, <<>>)
SetText == \E o \in Alive, txt \in Texts, ok \in BOOLEAN :
  LET m1 == IF ptr[o] = 0 THEN mem ELSE Free(mem, ptr[o])
      k == CHOOSE k \in 1..20 : k \notin DOMAIN m1 IN
  /\ bad' = (bad \/ FreeBad(ptr[o]))
  /\ IF ok THEN ptr' = With(ptr, o, k) /\ mem' = With(m1, k, txt) /\ len' = With(len, o, Len(txt)) /\ spec' = With(spec, o, txt)
     \* refused after the old text was given up: the word is left empty
     ELSE /\ ptr' = With(ptr, o, IF BUG = "dangling" THEN ptr[o] ELSE 0) /\ mem' = m1
          /\ len' = With(len, o, IF BUG = "dangling" THEN len[o] ELSE 0) /\ spec' = With(spec, o, <<>>)
Drop == \E o \in Alive :
  /\ mem' = (IF ptr[o] = 0 THEN mem ELSE Free(mem, ptr[o])) /\ bad' = (bad \/ FreeBad(ptr[o]))
  /\ ptr' = [x \in Alive \ {o} |-> ptr[x]] /\ len' = [x \in Alive \ {o} |-> len[x]] /\ spec' = [x \in Alive \ {o} |-> spec[x]]
Next == steps < Depth /\ steps' = steps + 1 /\ (Make \/ MakeRefused \/ Copy \/ Assign \/ Move \/ MoveAssign \/ SetText \/ Drop)
Spec == Init /\ [][Next]_vars

NothingBad == ~bad
OneOwner == \A o, p \in Alive : o # p /\ ptr[o] # 0 => ptr[o] # ptr[p]
NothingLost == DOMAIN mem = {ptr[o] : o \in Alive} \ {0}
Contents == \A o \in Alive : len[o] = Len(spec[o]) /\ (len[o] > 0 => ptr[o] \in DOMAIN mem /\ mem[ptr[o]] = spec[o])
=============================================================================
