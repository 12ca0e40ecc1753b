------------------------------- MODULE MC_Share -------------------------------
(* C25. Two actors, each with its own object, making calls that take several   *)
(* steps and use scratch space: in the object, in static storage, or static    *)
(* behind a lock. Each actor must get exactly the answers it would get alone.  *)
(* Interleaving calls (one thread) tells "static value remembered between      *)
(* calls" apart; interleaving steps (several threads) is needed for "static    *)
(* scratch used within one call".                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Scratch,     \* "own", "static", "memo": static, remembered between calls
          Threads,     \* TRUE: steps interleave; FALSE: whole calls do
          Calls
VARIABLES obj, tmp, pc, arg, got, want, shared, lock
vars == <<obj, tmp, pc, arg, got, want, shared, lock>>
A == {1, 2}
Init == /\ obj = [x \in A |-> 0] /\ tmp = [x \in A |-> 0] /\ pc = [x \in A |-> "idle"] /\ arg = [x \in A |-> 0]
        /\ got = [x \in A |-> <<>>] /\ want = [x \in A |-> 0] /\ shared = 0 /\ lock = 0
\* call: obj += arg by way of scratch; answers the new value
Enter(x) == /\ pc[x] = "idle" /\ Len(got[x]) < Calls /\ lock \in {0, x}
            /\ lock' = IF Threads THEN 0 ELSE x
            /\ \E v \in 1..2 : arg' = [arg EXCEPT ![x] = v + x] /\ want' = [want EXCEPT ![x] = @ + v + x]
            /\ pc' = [pc EXCEPT ![x] = "fill"] /\ UNCHANGED <<obj, tmp, got, shared>>
Fill(x) == /\ pc[x] = "fill"
           /\ IF Scratch = "own" THEN tmp' = [tmp EXCEPT ![x] = obj[x] + arg[x]] /\ UNCHANGED shared
              ELSE IF Scratch = "memo" /\ shared # 0 THEN UNCHANGED <<tmp, shared>>
              ELSE shared' = obj[x] + arg[x] /\ UNCHANGED tmp
           /\ pc' = [pc EXCEPT ![x] = "take"] /\ UNCHANGED <<obj, arg, got, want, lock>>
Take(x) == /\ pc[x] = "take"
           /\ LET r == IF Scratch = "own" THEN tmp[x] ELSE shared IN
              obj' = [obj EXCEPT ![x] = r] /\ got' = [got EXCEPT ![x] = Append(@, r)]
           /\ pc' = [pc EXCEPT ![x] = "idle"] /\ lock' = 0 /\ UNCHANGED <<tmp, arg, want, shared>>
Next == \E x \in A : Enter(x) \/ Fill(x) \/ Take(x)
Spec == Init /\ [][Next]_vars
Alone == \A x \in A : pc[x] = "idle" => (got[x] = <<>> \/ got[x][Len(got[x])] = want[x]) /\ obj[x] = want[x]
=============================================================================
