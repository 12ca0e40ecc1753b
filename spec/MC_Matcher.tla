------------------------------ MODULE MC_Matcher ------------------------------
(* A matcher as it is built: a word store numbering field names and words, a   *)
(* dictionary with counts per field, a reverse index from (field, word) to     *)
(* documents and the field lengths. Indexing goes document by document, field  *)
(* by field, word by word and may be broken off anywhere. Between calls, every *)
(* query answers as the matcher of Columbus: exactly its documents, scores,    *)
(* filters and online bonuses - after a broken-off call within the limits that *)
(* Columbus allows - and no query changes anything.                            *)
EXTENDS Columbus

CONSTANTS MaxCalls, MaxFaults, BUG

VARIABLES store,    \* words in the order of their identifiers
          dicts,    \* field id -> word id -> count
          top,      \* field id -> largest count
          rev,      \* <<field id, word id>> -> documents
          size,     \* <<document, field id>> -> length
          todo,     \* what remains of the call under way
          call,     \* the corpus being indexed, as documents
          calls, faults
ivars == <<store, dicts, top, rev, size, todo, call, calls, faults>>

F == <<6>>   G == <<1, 2>>      \* a field whose name is also a word
A == <<1>>   B == <<2>>  AB == <<1, 2>>  ABA == <<1, 2, 1>>  C == <<3, 3, 3>>
Doc(id, f) == [t |-> "doc", id |-> id, f |-> f]
D1 == Doc(1, (F :> <<AB, ABA, AB>>))
D2 == Doc(2, (F :> <<AB>>) @@ (G :> <<A, <<>>, B>>))
D3 == Doc(3, (F :> <<>>) @@ (G :> <<ABA>>))
D4 == Doc(1, (F :> <<B>>) @@ (G :> <<B, B>>))     \* document 1 again
Corpora == { <<>>, <<D1>>, <<D2>>, <<D1, D2>>, <<D3, D1>>, <<D4>> }
Queries0 == { <<AB>>, <<A>>, <<AB, B>>, <<C>>, <<ABA, ABA>>, <<>>, << <<>> >> }
P0 == ParamsObj
Params0 == { P0, [P0 EXCEPT !.dyn = FALSE], [P0 EXCEPT !.nos = {F}],
             [P0 EXCEPT !.terms = << <<<<F, AB>>>> >>], [P0 EXCEPT !.terms = << <<<<C, AB>>>>, <<<<G, B>>, <<F, AB>>>> >>],
             [P0 EXCEPT !.nos = {G}, !.terms = << <<<<G, B>>>> >>] }
Ev0 == [FreshErrors EXCEPT !.endd = 40, !.pairs = (<<1, 2>> :> 30)]
Wt0 == (G :> 8)

M == heap["m"]
MInit == /\ heap = ("m" :> [MatcherObj EXCEPT !.ev = Ev0, !.wt = Wt0]) /\ skip = FALSE
         /\ store = <<>> /\ dicts = <<>> /\ top = <<>> /\ rev = <<>> /\ size = <<>>
         /\ todo = <<>> /\ call = [on |-> FALSE, docs |-> <<>>] /\ calls = 0 /\ faults = 0

(* ---- indexing ------------------------------------------------------------------- *)
Idle == ~call.on
Has0(w) == w \in Range(store)
Id0(w) == CHOOSE k \in DOMAIN store : store[k] = w
Given0(w) == IF Has0(w) THEN store ELSE Append(store, w)
\* the micro steps of a corpus
Plan(docs) ==
  FoldLeft(LAMBDA acc, d : acc \o
     FoldLeft(LAMBDA a2, f : a2 \o << <<"field", d.id, f, Len(d.f[f])>> >>
                                \o [k \in 1..Len(d.f[f]) |-> <<"word", d.id, f, d.f[f][k]>>],
              <<>>, SortedWords(DOMAIN d.f)), <<>>, docs)
Begin == /\ Idle /\ calls < MaxCalls
         /\ \E c \in Corpora : call' = [on |-> TRUE, docs |-> c] /\ todo' = Plan(c)
         /\ calls' = calls + 1
         /\ UNCHANGED <<heap, skip, store, dicts, top, rev, size, faults>>
DoField == /\ ~Idle /\ todo # <<>> /\ Head(todo)[1] = "field"
           /\ LET s == Head(todo)
                  st == Given0(s[3])
                  k == <<s[2], CHOOSE k \in DOMAIN st : st[k] = s[3]>> IN
              /\ store' = st
              /\ size' = IF BUG = "sizeonce" /\ k \in DOMAIN size THEN size ELSE (k :> s[4]) @@ size
           /\ todo' = Tail(todo)
           /\ UNCHANGED <<heap, skip, dicts, top, rev, call, calls, faults>>
DoWord == /\ ~Idle /\ todo # <<>> /\ Head(todo)[1] = "word"
          /\ LET s == Head(todo)
                 st == Given0(s[4])
                 f == Id0(s[3])
                 w == CHOOSE k \in DOMAIN st : st[k] = s[4]
                 d == IF f \in DOMAIN dicts THEN dicts[f] ELSE <<>>
                 n == (IF w \in DOMAIN d THEN d[w] ELSE 0) + 1
                 r == <<f, w>> IN
             /\ store' = st
             /\ dicts' = (f :> (IF s[4] = <<>> THEN d ELSE (w :> n) @@ d)) @@ dicts
             /\ top' = (f :> Max({IF f \in DOMAIN top THEN top[f] ELSE 0, IF s[4] = <<>> THEN 0 ELSE n})) @@ top
             /\ rev' = (r :> ((IF r \in DOMAIN rev THEN rev[r] ELSE {}) \cup {s[2]})) @@ rev
          /\ todo' = Tail(todo)
          /\ UNCHANGED <<heap, skip, size, call, calls, faults>>
Finish == /\ ~Idle /\ todo = <<>>
          /\ heap' = Put("m", Indexed(M, call.docs))
          /\ call' = [on |-> FALSE, docs |-> <<>>]
          /\ UNCHANGED <<skip, store, dicts, top, rev, size, todo, calls, faults>>
(* storage fails in the middle of a word: it may be in the store, and in the     *)
(* dictionary only if the failure came after that                                *)
BreakOff == /\ ~Idle /\ todo # <<>> /\ faults < MaxFaults
            /\ faults' = faults + 1 /\ todo' = <<>> /\ call' = [on |-> FALSE, docs |-> <<>>]
            /\ heap' = Put("m", [M EXCEPT !.vague = TRUE, !.may = @ \cup PostingsOf(call.docs)])
            /\ LET s == Head(todo) w == IF s[1] = "field" THEN s[3] ELSE s[4] IN
               store' \in {store, Given0(w)}
            /\ UNCHANGED <<skip, dicts, top, rev, size, calls>>

(* ---- queries, as they are computed -------------------------------------------------- *)
Found(f, q, max) == {w \in DOMAIN dicts[f] : EditCost(q, store[w], Ev0) <= max}
BestMatches(p, Q) ==    \* <<field id, word id>> -> error
  FoldLeft(LAMBDA acc, q :
     FoldLeft(LAMBDA a2, f :
        IF store[f] \in p.nos THEN a2
        ELSE [k \in {<<f, w>> : w \in Found(f, q, Allow(p, q))} |->
                LET e == EditCost(q, store[k[2]], Ev0) IN
                IF k \notin DOMAIN a2 \/ BUG = "lastbest" THEN e ELSE Min2(e, a2[k])] @@ a2,
        acc, SetToSeq(DOMAIN dicts)),
     <<>>, Q)
ScoreOf(k, e) ==
  LET n == dicts[k[1]][k[2]]
      big == IF BUG = "ownmax" THEN Max({0} \cup {dicts[k[1]][x] : x \in DOMAIN dicts[k[1]] \ {k[2]}}) ELSE top[k[1]]
  IN Digits(100 * (big + 1 - n) * WeightOf(Wt0, store[k[1]]), (100 + e) * (big + 1) * 4, 5)
Gathered(best) ==       \* document -> relevancy
  FoldLeft(LAMBDA acc, k :
     FoldLeft(LAMBDA a2, d : (d :> (IF d \in DOMAIN a2 THEN a2[d] ELSE 0) + ScoreOf(k, best[k])) @@ a2,
              acc, SetToSeq(rev[k])),
     <<>>, SetToSeq(DOMAIN best))
HasTerm(f, w, d) == <<Id0(f), Id0(w)>> \in DOMAIN rev /\ d \in rev[<<Id0(f), Id0(w)>>]
Sub(term, d) == \A i \in DOMAIN term : Has0(term[i][1]) /\ Has0(term[i][2]) /\ HasTerm(term[i][1], term[i][2], d)
ImplMatch(p, Q) ==
  LET all == IF Q = <<>> THEN <<>> ELSE Gathered(BestMatches(p, Q)) IN
  [d \in {d \in DOMAIN all : \E i \in DOMAIN p.terms : Sub(p.terms[i], d)} |-> all[d]]
ExactCounts(Q, f) ==
  FoldLeft(LAMBDA acc, q : IF q = <<>> \/ ~Has0(q) \/ <<f, Id0(q)>> \notin DOMAIN rev THEN acc
              ELSE [d \in rev[<<f, Id0(q)>>] |-> (IF d \in DOMAIN acc THEN acc[d] ELSE 0) + 1] @@ acc,
           <<>>, Q)
ImplOnline(Q, fn) ==
  LET f == Id0(fn)
      plain == ImplMatch(P0, Q)
      ex == ExactCounts(Q, f)
      bonus(d) == IF d \notin DOMAIN ex THEN 0
                  ELSE 2 * ex[d] + (IF ex[d] = Len(Q) /\ <<d, f>> \in DOMAIN size /\ size[<<d, f>>] = ex[d] THEN 100 ELSE 0)
  IN [d \in DOMAIN plain \cup DOMAIN ex |-> (IF d \in DOMAIN plain THEN plain[d] ELSE 0) + 100000 * bonus(d)]
(* a query as a step: it must leave everything as it was *)
Query0 == /\ Idle
          /\ \E p \in Params0 :
               store' = IF BUG = "queryadds"
                        THEN FoldLeft(LAMBDA acc, t : IF t[1] \in Range(acc) THEN acc ELSE Append(acc, t[1]),
                                      store, FlattenSeq(p.terms))
                        ELSE store
          /\ UNCHANGED <<heap, skip, dicts, top, rev, size, todo, call, calls, faults>>
Next0 == Begin \/ DoField \/ DoWord \/ Finish \/ BreakOff \/ Query0
MSpec == MInit /\ [][Next0]_<<heap, skip, ivars>>

(* ---- refinement ------------------------------------------------------------------------ *)
Docs0(p, Q) == DOMAIN ImplMatch(p, Q)
Answers == Idle => \A Q \in Queries0, p \in Params0 :
   LET r == ImplMatch(p, Q) IN
   IF M.vague
   THEN p.terms # P0.terms \/ (MatchDocs(M, p, Range(Q)) \subseteq DOMAIN r /\ DOMAIN r \subseteq MatchDocs(M, p, Range(Q)) \cup MayDocs(M, p, Range(Q)))
   ELSE /\ DOMAIN r = MatchDocs(M, p, Range(Q))
        /\ \A d \in DOMAIN r : r[d] = Relevancy(M, Hits(M, p, Range(Q)), d)
Online == Idle => \A Q \in Queries0, f \in {F, G, AB, C} :
   /\ ~M.vague => (Has0(f) <=> f \in M.names)
   /\ Has0(f) /\ ~M.vague =>
      LET r == ImplOnline(Q, f) h == Hits(M, P0, Range(Q)) IN
      /\ DOMAIN r = MatchDocs(M, P0, Range(Q))
      /\ \A d \in DOMAIN r : r[d] = Relevancy(M, h, d) + 100000 * Bonus(M, Q, f, d)
(* after a failed call, repeating it makes everything found that should be *)
NumbersOnce == \A i, j \in DOMAIN store : store[i] = store[j] => i = j
=============================================================================
