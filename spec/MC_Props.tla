------------------------------- MODULE MC_Props -------------------------------
(* Columbus against the properties it is meant to express, over the bounded    *)
(* state graphs that Gen walks (one pool of calls at a time).                  *)
EXTENDS Gen

BUG == IF "BUG" \in DOMAIN IOEnv THEN IOEnv.BUG ELSE "none"

(* a deliberately wrong step now and then, to see that the properties notice *)
Spoilt(c) ==
  IF BUG = "alias" /\ c.op = "r.add" /\ {"p", "r"} \subseteq DOMAIN heap
  THEN heap' = [o \in {"p", "r"} |-> ResultsObj(Append(V(o), <<c.id, c.k>>))] @@ heap /\ Quiet
  ELSE IF BUG = "queryadds" /\ c.op = "m.online" /\ c.f \notin heap[c.o].names
  THEN heap' = Put(c.o, [heap[c.o] EXCEPT !.names = @ \cup {c.f}]) /\ Quiet
  ELSE IF BUG = "clear" /\ c.op = "e.clr" THEN heap' = Put(c.o, [heap[c.o] EXCEPT !.ev = FreshErrors]) /\ Quiet
  ELSE IF BUG = "reuse" /\ c.op = "s.id" /\ ~Known(heap[c.o], c.w) THEN heap' = Put(c.o, [heap[c.o] EXCEPT !.ids = (c.w :> 0) @@ @]) /\ Quiet
  ELSE Step(c)
PNext ==
  IF Len(hist) < Len(Pre)
  THEN /\ Step(Pre[Len(hist) + 1]) /\ hist' = Append(hist, Pre[Len(hist) + 1]) /\ prov' = prov
  ELSE /\ Len(hist) < Len(Pre) + Depth
       /\ \E c \in Pool(heap) :
            /\ ~MayFault(c) /\ Spoilt(c) /\ Ok(heap')
            /\ hist' = Append(hist, c) /\ prov' = prov
PSpec == GInit /\ [][PNext]_gvars
\* reached states once, whatever led to them
PView == <<heap, Len(hist)>>

C == hist'[Len(hist')]
Moves == {"w.move", "w.mset", "l.move", "l.mset", "r.move", "r.mset"}
Copies == {"w.copy", "w.set", "l.copy", "l.set", "d.copy", "d.set", "r.copy", "r.set"}
Looks == {"w.obs", "w.cmp", "w.utf8", "l.obs", "l.cmp", "d.obs", "d.get", "d.cnt", "d.id", "c.obs", "s.has", "s.hasid", "s.word",
          "i.has", "i.stat", "q.obs", "e.err", "e.vals", "e.ing", "x.get", "f.obs", "p.obs", "m.match", "m.online", "r.obs", "r.read"}
Touched(c) == IF c.op \in Looks THEN {}
              ELSE IF c.op \in Moves THEN {c.o, c.s} ELSE IF c.op = "i.find" THEN {c.s} ELSE {c.o}

(* C02 C03 C15 C19 C25 C26: a call changes no object but its own *)
Frame == [][LET c == C IN \A x \in (DOMAIN heap \cup DOMAIN heap') \ Touched(c) :
              x \in DOMAIN heap /\ x \in DOMAIN heap' /\ heap'[x] = heap[x]]_hist
(* C02 C03 C15 C19: copies equal their source, moved-from objects are empty *)
CopiesEqual == [][LET c == C IN
   /\ c.op \in Copies => heap'[c.o] = heap[c.s] /\ heap'[c.s] = heap[c.s]
   /\ c.op \in Moves => heap'[c.o] = heap[c.s] /\ heap'[c.s].v = <<>> /\ heap'[c.s].t = heap[c.s].t]_hist

(* ---- stores ---------------------------------------------------------------------- *)
Stores == Names(heap, "store")
DenseIds == \A s \in Stores : LET x == heap[s] IN
   /\ {x.ids[w] : w \in DOMAIN x.ids} = 0..(x.n - 1)
   /\ \A u, w \in DOMAIN x.ids : x.ids[u] = x.ids[w] => u = w
   /\ \A w \in DOMAIN x.ids : WordOf(x, IdOf(x, w)) = w
Permanent == [][\A s \in Names(heap, "store") : s \in DOMAIN heap' =>
   /\ heap'[s].n >= heap[s].n
   /\ \A w \in DOMAIN heap[s].ids : w \in DOMAIN heap'[s].ids /\ heap'[s].ids[w] = heap[s].ids[w]]_hist

(* ---- dictionaries ------------------------------------------------------------------ *)
Dicts == Names(heap, "index")
Inserted(o, w) == Cardinality({i \in DOMAIN hist : hist[i].op = "i.ins" /\ hist[i].o = o /\ hist[i].w = w})
CountsRight == \A i \in Dicts : LET x == heap[i] IN
   /\ <<>> \notin DOMAIN x.w
   /\ \A w \in DOMAIN x.w : x.w[w].n = Inserted(i, w)
   /\ \A k \in DOMAIN hist : hist[k].op = "i.ins" /\ hist[k].w # <<>> => hist[k].w \in DOMAIN x.w
MoreBoundMoreFound == \A i \in Dicts : \A e \in Names(heap, "errors") : \A q \in {<<a>>, <<a, b>>, <<b, a, b>>} :
   /\ Near(heap[i], q, heap[e].ev, 100) \subseteq Near(heap[i], q, heap[e].ev, 200)
   /\ q \in DOMAIN heap[i].w => <<heap[i].w[q].id, 0>> \in Near(heap[i], q, heap[e].ev, 0)

(* ---- error tables -------------------------------------------------------------------- *)
Tables0 == Names(heap, "errors") \cup Names(heap, "matcher")
Letters0 == Range(ErrLetters) \cup {48 + 2, 113, 119, 229}
Symmetric0 == \A e \in Tables0 : \A x, y \in Letters0 :
   SubError(heap[e].ev, x, y) = SubError(heap[e].ev, y, x) /\ SubError(heap[e].ev, x, x) = 0
GroupsDisjoint == \A e \in Tables0 : \A l \in DOMAIN heap[e].ev.grp : heap[e].ev.grp[l] \in DOMAIN heap[e].ev.gerr
Scalars(ev) == <<ev.ins, ev.del, ev.endd, ev.st, ev.tr, ev.lim>>
Subs(ev) == [p \in Letters0 \X Letters0 |-> SubError(ev, p[1], p[2])]
SettingsApart == [][LET c == C IN
   /\ c.op \in {"e.set", "e.grp", "e.clr", "e.kbd", "e.pad", "e.acc"} => Scalars(heap'[c.o].ev) = Scalars(heap[c.o].ev)
   /\ c.op \in {"e.val", "e.sub"} => Subs(heap'[c.o].ev) = Subs(heap[c.o].ev)
   /\ c.op = "e.sub" => LET f == heap[c.o].ev g == heap'[c.o].ev IN
        g.ins = f.ins /\ g.del = f.del /\ g.tr = f.tr /\ \A k \in 0..2 : StartError(g, k) = f.ins
   /\ c.op = "e.clr" => \A x, y \in Letters0 : SubError(heap'[c.o].ev, x, y) = (IF x = y THEN 0 ELSE DefaultError)
   /\ c.op = "e.kbd" => \A x, y \in Letters0 : LET u == SubError(heap'[c.o].ev, x, y) IN
        IF x = y THEN u = 0 ELSE IF Pair(x, y) \in KbdPairs THEN u = TypoError ELSE u = SubError(heap[c.o].ev, x, y)
   /\ c.op = "e.grp" => LET ev == heap[c.o].ev IN
        IF GroupClash(ev, c.l) THEN heap' = heap
        ELSE \A x, y \in Letters0 : ~({x, y} \subseteq Range(c.l)) => SubError(heap'[c.o].ev, x, y) = SubError(ev, x, y)
   /\ c.op \in {"x.set"} => heap'[c.o].ev = heap[c.o].ev /\ heap'[c.o].post = heap[c.o].post]_hist

(* ---- result lists ------------------------------------------------------------------------ *)
ReadingRight == \A o \in Names(heap, "results") : LET v == heap[o].v r == Reading(v) IN
   /\ Bag(r) = Bag(v) /\ \A i \in 1..(Len(r) - 1) : r[i][2] >= r[i+1][2]
   /\ \A i, j \in DOMAIN v : i < j /\ v[i][2] = v[j][2] /\ v[i] # v[j] =>
         \E x, y \in DOMAIN r : x < y /\ r[x] = v[i] /\ r[y] = v[j]
   /\ Reading(r) = r

(* ---- matchers ------------------------------------------------------------------------------ *)
Ms == Names(heap, "matcher")
Qs == {{abc}, {ab}, {<<b>>}, {abd, <<99, 98>>}, {}}
Ps == {ParamsObj, [ParamsObj EXCEPT !.dyn = FALSE], [ParamsObj EXCEPT !.nos = {t}],
       [ParamsObj EXCEPT !.terms = << << <<t, abc>> >>, << <<n, <<b>>>>, <<t, abd>> >> >>]}
All(p) == [p EXCEPT !.terms = << <<>> >>]
Matching == \A m \in Ms : \A Q \in Qs : \A p \in Ps :
   LET x == heap[m] D == MatchDocs(x, p, Q) IN
   /\ Q = {} => D = {}
   /\ D \subseteq MatchDocs(x, All(p), Q)                                   \* filters only restrict
   /\ MatchDocs(x, p, Q) \subseteq MatchDocs(x, [p EXCEPT !.nos = {}], Q)   \* so do excluded fields
   /\ MatchDocs(x, p, Q) \subseteq MatchDocs(x, [p EXCEPT !.dyn = FALSE], Q)
   /\ MatchDocs(x, p, Q) = UNION {MatchDocs(x, p, {q}) : q \in Q}           \* query words are alternatives
   /\ (\A f \in DOMAIN x.wt : x.wt[f] >= 0) =>
        \A d \in D : Relevancy(x, Hits(x, p, Q), d) >= 0
Docs0 == {heap[o] : o \in Names(heap, "doc")}
OrderFree == \A m \in Ms : \A d, e \in Docs0 :
   LET x == heap[m] IN
   /\ d.id # e.id => LET u == Indexed(x, <<d, e>>) v == Indexed(x, <<e, d>>) IN u = v
   /\ Indexed(x, <<d, e>>) = Indexed(Indexed(x, <<d>>), <<e>>)
   /\ Indexed(x, <<>>) = x
   /\ \A Q \in Qs : MatchDocs(x, ParamsObj, Q) \subseteq MatchDocs(Indexed(x, <<d>>), ParamsObj, Q)
OnlineBonus == \A m \in Ms : \A d \in Docs0 : \A q \in {<<abc>>, <<abc, abd, abc>>, << <<b>>, ab >>} : \A f \in {t, n} :
   LET x == heap[m] k == Bonus(x, q, f, d.id) IN
   k \in 0..(2 * Len(q)) \/ k = 2 * Len(q) + 100
(* queries are not steps of the matcher at all *)
QueriesPure == [][C.op \in {"m.match", "m.online", "i.find", "r.read"} => \A m \in Ms \cup Dicts : heap'[m] = heap[m]]_hist
=============================================================================
