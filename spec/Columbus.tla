------------------------------ MODULE Columbus ------------------------------
(* The whole public surface of libcolumbus as one state machine.             *)
(*                                                                            *)
(* State: `heap`, the abstract value of every live object, by name.           *)
(* Every public call is one action, taking a command record c: c.op names the *)
(* call, the other fields are its arguments. When a recorded execution is     *)
(* validated (LOGGED), c.r holds what the real call returned, and the action  *)
(* is enabled only if that is what the specification allows.                  *)
(*                                                                            *)
(* FOCUS selects the property whose observations are decided ("ALL": every    *)
(* one): Obs(P, cond) requires cond iff the focus is in P. When a call that   *)
(* is not in focus is accepted or refused against the specification, the rest *)
(* of the session is abandoned (`skip`): it decides nothing about the focus.  *)
EXTENDS Errors

CONSTANTS LOGGED,  \* validating a recorded execution?
          FOCUS,   \* property under decision, or "ALL"
          DIRS     \* data directories: name -> [latin, greek -> lines], from the runner

VARIABLES heap, skip
vars == <<heap, skip>>

------------------------------------------------------------------------------
(* Observation and outcome *)
InFocus(P) == FOCUS = "ALL" \/ FOCUS \in P
Obs(P, cond) == LOGGED /\ InFocus(P) => (cond \/ ~PrintT(<<"NOT ALLOWED, observation of", P>>))
Outcome(c, exp, P) ==
  IF ~LOGGED \/ "ok" \notin DOMAIN c.r \/ c.r.ok = exp THEN skip' = FALSE
  ELSE /\ ~(InFocus(P) /\ PrintT(<<"NOT ALLOWED, outcome", c.r.ok, P>>)) /\ skip' = TRUE
Quiet == skip' = FALSE
Has(c, f) == f \in DOMAIN c
(* the C accessors return what the C++ ones do, or their failure value *)
Mirrors(c) == /\ Obs({"C21"}, Has(c.r, "same") => c.r.same)
              /\ Obs({"C21"}, Has(c.r, "coob") => \A i \in DOMAIN c.r.coob : c.r.coob[i])

------------------------------------------------------------------------------
(* The heap *)
Init == heap = <<>> /\ skip = FALSE

Put(o, v) == (o :> v) @@ heap
PutIn(h, o, v) == (o :> v) @@ h
Is(o, t) == o \in DOMAIN heap /\ heap[o].t = t
V(o) == heap[o].v
Dup(c) ==          \* some kinds of objects cannot be copied; what can gives an independent copy
  /\ c.o \notin DOMAIN heap /\ c.s \in DOMAIN heap /\ Quiet
  /\ heap' = IF LOGGED /\ c.r.ok THEN Put(c.o, heap[c.s]) ELSE heap
Delete(c) == /\ c.o \in DOMAIN heap
             /\ heap' = [x \in DOMAIN heap \ {c.o} |-> heap[x]]
             /\ Quiet
Read == UNCHANGED heap /\ Quiet   \* a call that only observes
Fresh(c, v) == c.o \notin DOMAIN heap /\ heap' = Put(c.o, v)

WordObj(v)  == [t |-> "word", v |-> v]
ListObj(v)  == [t |-> "list", v |-> v]
DocObj(id, f) == [t |-> "doc", id |-> id, f |-> f]
CorpusObj(v) == [t |-> "corpus", v |-> v]
StoreObj    == [t |-> "store", ids |-> <<>>, n |-> 0, fams |-> <<>>]
IndexObj    == [t |-> "index", w |-> <<>>, fams |-> <<>>]
HitsObj(v)  == [t |-> "hits", v |-> v]
ErrObj(e)   == [t |-> "errors", ev |-> e]
WeightsObj  == [t |-> "weights", wt |-> <<>>]
FilterObj(ts) == [t |-> "filter", terms |-> ts]
ParamsObj   == [t |-> "params", dyn |-> TRUE, nos |-> {}, terms |-> << <<>> >>]
ResultsObj(v) == [t |-> "results", v |-> v]
(* post: field -> word -> [n: times indexed, docs: who has it];               *)
(* size: <<doc, field>> -> words in that field when last indexed;             *)
(* names: every word the matcher has met; may: postings that a failed index   *)
(* call may or may not have added; vague: counts unknown since such a failure *)
MatcherObj  == [t |-> "matcher", post |-> <<>>, size |-> <<>>, names |-> {},
                ev |-> FreshErrors, wt |-> <<>>, may |-> {}, vague |-> FALSE]

------------------------------------------------------------------------------
(* Words *)
(* text arguments: bytes, or (long ones) runs of bytes *)
WordText(c) == IF Has(c, "ts") THEN RunWord(c.ts) ELSE TextWord(c.b)
ListText(c) == IF Has(c, "ts") THEN RunSplit(c.ts) ELSE Split(c.b)
WordNew(c) ==    \* from a zero-terminated byte string
  LET r == WordText(c) IN
  /\ Outcome(c, r.ok, {"C01"})
  /\ IF r.ok THEN Fresh(c, WordObj(r.v)) ELSE UNCHANGED heap
WordArray(c) ==  \* from a letter array
  LET r == ArrayWord(c.l) IN
  /\ Outcome(c, r.ok, {"C01"})
  /\ IF r.ok THEN Fresh(c, WordObj(r.v)) ELSE UNCHANGED heap
WordEmpty(c) == Fresh(c, WordObj(<<>>)) /\ Quiet
WordCopy(c) == Is(c.s, "word") /\ Fresh(c, heap[c.s]) /\ Quiet
WordMove(c) == /\ Is(c.s, "word") /\ c.o \notin DOMAIN heap
               /\ heap' = PutIn(Put(c.o, heap[c.s]), c.s, WordObj(<<>>))
               /\ Quiet
WordAssign(c) == /\ Is(c.o, "word") /\ Is(c.s, "word")
                 /\ heap' = Put(c.o, heap[c.s]) /\ Quiet
WordMoveAssign(c) == /\ Is(c.o, "word") /\ Is(c.s, "word") /\ c.o # c.s
                     /\ heap' = PutIn(Put(c.o, heap[c.s]), c.s, WordObj(<<>>))
                     /\ Quiet
WordSetText(c) ==  \* assignment of text; refused: the word holds some valid word
  LET r == WordText(c) IN
  /\ Is(c.o, "word")
  /\ Outcome(c, r.ok, {"C01"})
  /\ IF r.ok THEN /\ Obs({"C01", "C02"}, c.r.l = r.v /\ c.r.len = Len(r.v))
                  /\ heap' = Put(c.o, WordObj(r.v))
     ELSE /\ Obs({"C01", "C02"}, ValidWord(c.r.l) /\ Len(c.r.l) = c.r.len)
          /\ heap' = Put(c.o, WordObj(IF LOGGED THEN c.r.l ELSE <<>>))
WordJoin(c) == /\ Is(c.s, "word") /\ Is(c.s2, "word")
               /\ Fresh(c, WordObj(V(c.s) \o V(c.s2))) /\ Quiet
WordObs(c) ==
  /\ Is(c.o, "word") /\ Read
  /\ Obs({"C01", "C02"}, c.r.len = Len(V(c.o)))
  /\ Obs({"C01", "C02"}, Has(c.r, "l") => c.r.l = V(c.o))
  /\ Obs({"C02"}, Has(c.r, "oob") => \A i \in DOMAIN c.r.oob : c.r.oob[i])
  /\ Obs({"C04"}, Has(c.r, "u") => c.r.u = ToUtf8(V(c.o)))
WordCmp(c) ==
  LET a == V(c.o) b == V(c.s) IN
  /\ Is(c.o, "word") /\ Is(c.s, "word") /\ Read
  /\ Obs({"C02"}, c.r.eq = (a = b) /\ c.r.ne = (a # b))
  /\ Obs({"C02"}, c.r.lt = WordLess(a, b) /\ c.r.gt = WordLess(b, a))
  /\ Obs({"C02"}, a = b => c.r.heq)
WordEqText(c) ==   \* comparison with a byte string, byte for byte
  /\ Is(c.o, "word") /\ Read
  /\ Obs({}, c.r.eq = (ToUtf8(V(c.o)) = c.b) /\ c.r.ne = ~c.r.eq)
WordUtf8(c) ==     \* write into a buffer of c.n bytes
  LET u == ToUtf8(V(c.o))
      fits == Len(u) + 1 <= c.n IN
  /\ Is(c.o, "word") /\ UNCHANGED heap
  /\ Outcome(c, fits, {"C04"})
  /\ Obs({"C04"}, c.r.clean)
  /\ Obs({"C04"}, fits => c.r.b = u)

------------------------------------------------------------------------------
(* Word lists *)
ListSplit(c) ==
  LET r == ListText(c) IN
  /\ Outcome(c, r.ok, {"C03"})
  /\ IF r.ok THEN Fresh(c, ListObj(r.v)) ELSE UNCHANGED heap
ListNew(c) == Fresh(c, ListObj(<<>>)) /\ Quiet
ListCopy(c) == Is(c.s, "list") /\ Fresh(c, heap[c.s]) /\ Quiet
ListMove(c) == /\ Is(c.s, "list") /\ c.o \notin DOMAIN heap
               /\ heap' = PutIn(Put(c.o, heap[c.s]), c.s, ListObj(<<>>))
               /\ Quiet
ListAssign(c) == /\ Is(c.o, "list") /\ Is(c.s, "list")
                 /\ heap' = Put(c.o, heap[c.s]) /\ Quiet
ListMoveAssign(c) == /\ Is(c.o, "list") /\ Is(c.s, "list") /\ c.o # c.s
                     /\ heap' = PutIn(Put(c.o, heap[c.s]), c.s, ListObj(<<>>))
                     /\ Quiet
ListAdd(c) ==
  LET w == IF Has(c, "s") THEN V(c.s) ELSE c.w IN
  /\ Is(c.o, "list") /\ (Has(c, "s") => Is(c.s, "word"))
  /\ heap' = Put(c.o, ListObj(Append(V(c.o), w))) /\ Quiet
ListObs(c) ==
  /\ Is(c.o, "list") /\ Read
  /\ Obs({"C03"}, c.r.n = Len(V(c.o)) /\ c.r.ws = V(c.o))
  /\ Obs({}, Has(c.r, "oob") => \A i \in DOMAIN c.r.oob : c.r.oob[i])
ListDrop(c) ==  \* the words, read when the list itself is no longer held
  /\ Is(c.o, "list") /\ Obs({"C03", "C24"}, c.r.ws = V(c.o))
  /\ Delete(c)
ListCmp(c) ==
  /\ Is(c.o, "list") /\ Is(c.s, "list") /\ Read
  /\ Obs({"C03"}, c.r.eq = (V(c.o) = V(c.s)) /\ c.r.ne = ~c.r.eq)

------------------------------------------------------------------------------
(* Documents and corpora *)
DocNew(c) == Fresh(c, DocObj(c.id, <<>>)) /\ Quiet
DocCopy(c) == Is(c.s, "doc") /\ Fresh(c, heap[c.s]) /\ Quiet
DocAssign(c) == /\ Is(c.o, "doc") /\ Is(c.s, "doc")
                /\ heap' = Put(c.o, heap[c.s]) /\ Quiet
WithText(d, f, ws) == [d EXCEPT !.f = (f :> ws) @@ @]
DocText(c) ==     \* a field given as text
  LET r == ListText(c) IN
  /\ Is(c.o, "doc")
  /\ Outcome(c, r.ok, {"C19"})
  /\ heap' = IF r.ok THEN Put(c.o, WithText(heap[c.o], c.f, r.v)) ELSE heap
DocWords(c) ==    \* a field given as a word list
  /\ Is(c.o, "doc") /\ Is(c.s, "list")
  /\ heap' = Put(c.o, WithText(heap[c.o], c.f, V(c.s))) /\ Quiet
DocShown(r, d) ==
  LET fs == SortedWords(DOMAIN d.f) IN
  /\ r.id = d.id /\ r.n = Len(fs) /\ r.fs = fs
  /\ r.ts = [i \in DOMAIN fs |-> d.f[fs[i]]]
DocObs(c) ==
  /\ Is(c.o, "doc") /\ Read
  /\ Obs({"C19"}, DocShown(c.r, heap[c.o]))
DocId(c) ==
  /\ Is(c.o, "doc") /\ Read
  /\ Obs({"C19"}, c.r.id = heap[c.o].id)
DocFields(c) == Is(c.o, "doc") /\ Read /\ Obs({"C19"}, c.r.n = Cardinality(DOMAIN heap[c.o].f))
DocDrop(c) ==   \* a field's words, read when the document itself is no longer held
  /\ Is(c.o, "doc") /\ c.f \in DOMAIN heap[c.o].f
  /\ Obs({"C19", "C24"}, c.r.ws = heap[c.o].f[c.f])
  /\ Delete(c)
DocGet(c) ==
  LET d == heap[c.o] IN
  /\ Is(c.o, "doc") /\ UNCHANGED heap
  /\ Outcome(c, c.f \in DOMAIN d.f, {"C19"})
  /\ Obs({"C19"}, c.f \in DOMAIN d.f => c.r.ws = d.f[c.f])
CountIn(ws, w) == Cardinality({i \in DOMAIN ws : ws[i] = w})
DocCount(c) ==
  LET d == heap[c.o] IN
  /\ Is(c.o, "doc") /\ Read
  /\ Obs({"C19"}, c.r.c = IF c.f \in DOMAIN d.f THEN CountIn(d.f[c.f], c.w) ELSE 0)
  /\ Obs({"C19"}, c.r.t = MapThenSumSet(LAMBDA f : CountIn(d.f[f], c.w), DOMAIN d.f))
CorpusNew(c) == Fresh(c, CorpusObj(<<>>)) /\ Quiet
(* a corpus is a sequence of documents; c.n alike ones in a row, with           *)
(* identifiers from that of the first on, are kept as one entry                  *)
Many(d, n) == [t |-> "many", id |-> d.id, n |-> n, f |-> d.f]
CorpusAdd(c) == /\ Is(c.o, "corpus") /\ Is(c.s, "doc")
                /\ heap' = Put(c.o, CorpusObj(Append(V(c.o), IF Has(c, "n") THEN Many(heap[c.s], c.n) ELSE heap[c.s])))
                /\ Quiet
Each(v) == FlatMap(LAMBDA d : IF d.t = "doc" THEN <<d>> ELSE [i \in 1..d.n |-> DocObj(d.id + i - 1, d.f)], v)
CorpusObs(c) ==
  LET ds == Each(V(c.o)) IN
  /\ Is(c.o, "corpus") /\ Read
  /\ Obs({"C19"}, c.r.n = Len(ds))
  /\ Obs({"C19"}, Has(c.r, "ds") => Len(c.r.ds) = Len(ds) /\
                  \A i \in DOMAIN ds : DocShown(c.r.ds[i], ds[i]))
  /\ Obs({"C19"}, Has(c.r, "oob") => \A i \in DOMAIN c.r.oob : c.r.oob[i])

------------------------------------------------------------------------------
(* Word stores *)
(* c.n (n of them) words of a family, with identifiers from first on *)
(* (over the letters c.a, or all those from c.ab[1] to c.ab[2])                  *)
Family(c, n, first) == [a |-> TLCEval(IF Has(c, "ab") THEN [i \in 1..(c.ab[2] - c.ab[1] + 1) |-> c.ab[1] + i - 1] ELSE c.a),
                        dig |-> TLCEval(IF Has(c, "ab") THEN [l \in c.ab[1]..c.ab[2] |-> l - c.ab[1]] ELSE DigitOf(c.a)), len |-> c.len, from |-> c.from, n |-> n, first |-> first]
FamHit(fams, w) == {i \in DOMAIN fams : LET k == FamIndex(fams[i].dig, fams[i].len, w) IN
                                         k >= fams[i].from /\ k < fams[i].from + fams[i].n}
Known(s, w) == w \in DOMAIN s.ids \/ FamHit(s.fams, w) # {}
IdOf(s, w) == IF w \in DOMAIN s.ids THEN s.ids[w]
              ELSE LET i == CHOOSE i \in FamHit(s.fams, w) : TRUE IN
                   s.fams[i].first + FamIndex(s.fams[i].dig, s.fams[i].len, w) - s.fams[i].from
WordOf(s, id) ==
  LET F == {i \in DOMAIN s.fams : id >= s.fams[i].first /\ id < s.fams[i].first + s.fams[i].n} IN
  IF F # {} THEN LET f == s.fams[CHOOSE i \in F : TRUE] IN
                 FamWord(f.a, f.len, f.from + id - f.first)
  ELSE CHOOSE w \in DOMAIN s.ids : s.ids[w] = id
Given(s, w) == IF Known(s, w) THEN s
               ELSE [s EXCEPT !.ids = (w :> s.n) @@ @, !.n = @ + 1]
StoreNew(c) == Fresh(c, StoreObj) /\ Quiet
StoreId(c) ==
  LET s == heap[c.o] IN
  /\ Is(c.o, "store")
  /\ Outcome(c, TRUE, {"C05"})
  /\ Obs({"C05", "C22"}, c.r.id = IdOf(Given(s, c.w), c.w))
  /\ heap' = Put(c.o, Given(s, c.w))
StoreHas(c) ==
  /\ Is(c.o, "store") /\ Read
  /\ Obs({"C05", "C22"}, c.r.h = Known(heap[c.o], c.w))
StoreHasId(c) ==
  /\ Is(c.o, "store") /\ Read
  /\ Obs({"C05"}, c.r.h = (c.id >= 0 /\ c.id < heap[c.o].n))   \* -1: the largest identifier
StoreWord(c) ==
  LET s == heap[c.o]
      there == c.id >= 0 /\ c.id < s.n IN
  /\ Is(c.o, "store") /\ UNCHANGED heap
  /\ Outcome(c, there, {"C05"})
  /\ Obs({"C05", "C22"}, there => c.r.l = WordOf(s, c.id))
StoreFam(c) ==   \* identifiers for all words of a family that is new to the store
  LET s == heap[c.o]
      f == Family(c, c.n, s.n) IN
  /\ Is(c.o, "store")
  /\ Outcome(c, TRUE, {"C05"})
  /\ Obs({"C05", "C22"}, c.r.runs = << <<s.n, c.n>> >>)
  /\ heap' = Put(c.o, [s EXCEPT !.fams = Append(@, f), !.n = @ + c.n])

------------------------------------------------------------------------------
(* Dictionaries (LevenshteinIndex) and match lists (IndexMatches) *)
IndexNew(c) == Fresh(c, IndexObj) /\ Quiet
IndexPut(x, w, id) ==
  IF w = <<>> THEN x
  ELSE LET n == IF w \in DOMAIN x.w THEN x.w[w].n ELSE 0 IN
       [x EXCEPT !.w = (w :> [id |-> id, n |-> n + 1]) @@ @]
IndexInsert(c) ==
  /\ Is(c.o, "index")
  /\ c.w \in DOMAIN heap[c.o].w => heap[c.o].w[c.w].id = c.id   \* one word, one identifier
  /\ Outcome(c, TRUE, {"C06"})
  /\ heap' = Put(c.o, IndexPut(heap[c.o], c.w, c.id))
IndexFam(c) ==
  LET f == Family(c, c.n, c.id) IN
  /\ Is(c.o, "index")
  /\ Outcome(c, TRUE, {"C06"})
  /\ heap' = Put(c.o, [heap[c.o] EXCEPT !.fams = Append(@, f)])
InDict(x, w) == w \in DOMAIN x.w \/ FamHit(x.fams, w) # {}
IndexHas(c) ==
  /\ Is(c.o, "index") /\ Read
  /\ Obs({"C06", "C22"}, c.w # <<>> => c.r.h = InDict(heap[c.o], c.w))
CountOf(x, id) ==
  LET W == {w \in DOMAIN x.w : x.w[w].id = id}
      F == {i \in DOMAIN x.fams : id >= x.fams[i].first /\ id < x.fams[i].first + x.fams[i].n}
  IN  IF W # {} THEN x.w[CHOOSE w \in W : TRUE].n ELSE IF F # {} THEN 1 ELSE 0
SumFams(fams) == FoldLeft(LAMBDA acc, f : acc + f.n, 0, fams)
IndexStat(c) ==
  LET x == heap[c.o] IN
  /\ Is(c.o, "index") /\ Read
  /\ Obs({"C06", "C22"}, c.r.n = Cardinality(DOMAIN x.w) + SumFams(x.fams))
  /\ Obs({"C06"}, c.r.m = Max({0} \cup {x.w[w].n : w \in DOMAIN x.w}
                               \cup {1 : i \in DOMAIN x.fams}))
  /\ Obs({"C06", "C22"}, \A i \in DOMAIN c.ids : c.r.c[i] = CountOf(x, c.ids[i]))
EvOf(o) == heap[o].ev
HasEv(o) == Is(o, "errors") \/ Is(o, "matcher")

Bag(s) == FoldLeft(LAMBDA acc, x : [acc EXCEPT ![x] = @ + 1], TLCEval([x \in Range(s) |-> 0]), s)
Rising(ms) == \A i \in 1..(Len(ms) - 1) : ms[i][2] <= ms[i+1][2]
Ids(ms) == [i \in DOMAIN ms |-> ms[i][1]]
(* All words of x within max of q, with identifier and cost *)
Near(x, q, ev, max) ==
  LET cost == [w \in DOMAIN x.w |-> EditCost(q, w, ev)] IN
  {<<x.w[w].id, cost[w]>> : w \in {w \in DOMAIN x.w : cost[w] <= max}}
(* In a family, only words within one default edit of a query are computed    *)
(* (searches in families are made with a bound below two such edits).         *)
FamNear(f, q, ev, max) ==
  LET n == Len(q)
      A == DOMAIN f.dig
      in(w) == LET k == FamIndex(f.dig, f.len, w) IN k >= f.from /\ k < f.from + f.n
      mem == {w \in {q} : in(w)}
             \cup UNION {{w \in {[q EXCEPT ![i] = l] : l \in A} : in(w)} : i \in IF f.len = n THEN 1..n ELSE {}}
             \cup {w \in {SubSeq(q, 1, i-1) \o SubSeq(q, i+1, n) : i \in 1..n} : in(w)}
             \cup UNION {{w \in {SubSeq(q, 1, i) \o <<l>> \o SubSeq(q, i+1, n) : l \in A} : in(w)} : i \in IF f.len = n + 1 THEN 0..n ELSE {}}
             \cup {w \in {[q EXCEPT ![i] = q[i+1], ![i+1] = q[i]] : i \in 1..(n-1)} : in(w)}
  IN {y \in {<<f.first + FamIndex(f.dig, f.len, w) - f.from, EditCost(q, w, ev)>> : w \in mem} : y[2] <= max}
AllNear(x, q, ev, max) ==
  Near(x, q, ev, max) \cup UNION {FamNear(x.fams[i], q, ev, max) : i \in DOMAIN x.fams}

HitsNew(c) == Fresh(c, HitsObj(<<>>)) /\ Quiet
HitsClear(c) == Is(c.o, "hits") /\ heap' = Put(c.o, HitsObj(<<>>)) /\ Quiet
HitsObs(c) ==
  /\ Is(c.o, "hits") /\ Read
  /\ Obs({"C08"}, Bag(Ids(c.r.ms)) = Bag(Ids(V(c.o))))
  /\ Obs({"C07"}, Bag(c.r.ms) = Bag(V(c.o)))
  /\ Obs({"C08"}, Has(c.r, "oob") => \A i \in DOMAIN c.r.oob : c.r.oob[i])
IndexFind(c) ==   \* search in dictionary c.o with errors c.e into match list c.s
  LET x == heap[c.o]
      all == AllNear(x, c.q, EvOf(c.e), 2000000000)
      found == SetToSeq({y \in all : y[2] <= c.max})
      total == V(c.s) \o found
      ids == {y[1] : y \in all}
  IN
  /\ Is(c.o, "index") /\ HasEv(c.e) /\ Is(c.s, "hits")
  /\ Outcome(c, TRUE, {"C08"})
  \* which words: exactly those within the bound, each once, added to what was there
  /\ Obs({"C08", "C12", "C22"}, Bag(Ids(c.r.ms)) = Bag(Ids(total)))
  /\ Obs({"C08"}, Rising(c.r.ms))
  \* the error of each reported word (that is in the dictionary)
  /\ Obs({"C07", "C12"}, V(c.s) = <<>> =>
        \A i \in DOMAIN c.r.ms : c.r.ms[i][1] \in ids => c.r.ms[i] \in all)
  /\ Obs({"C07"}, Len(c.r.ms) = Len(total) => Bag(c.r.ms) = Bag(total))
  /\ heap' = Put(c.s, HitsObj(IF LOGGED THEN c.r.ms ELSE total))

------------------------------------------------------------------------------
(* Error tables, alone or inside a matcher *)
SetEv(o, e) == Put(o, [heap[o] EXCEPT !.ev = e])
ErrNew(c) == Fresh(c, ErrObj(FreshErrors)) /\ Quiet
ErrUpdate(c, e) == HasEv(c.o) /\ heap' = SetEv(c.o, e) /\ Quiet
ErrPair(c)      == ErrUpdate(c, SetPair(EvOf(c.o), c.x, c.y, c.e))
ErrClear(c)     == ErrUpdate(c, ClearErrors(EvOf(c.o)))
ErrKeyboard(c)  == ErrUpdate(c, AddKeyboard(EvOf(c.o)))
ErrPad(c)       == ErrUpdate(c, AddPad(EvOf(c.o)))
ErrSubstring(c) == ErrUpdate(c, Substring(EvOf(c.o)))
ErrScalar(c)    == /\ c.k \in {"ins", "del", "endd", "st", "tr", "lim"}
                   /\ ErrUpdate(c, [EvOf(c.o) EXCEPT ![c.k] = c.v])
ErrGroup(c) ==
  LET clash == GroupClash(EvOf(c.o), c.l) IN
  /\ HasEv(c.o)
  /\ Outcome(c, ~clash, {"C10"})
  /\ heap' = IF clash THEN heap ELSE SetEv(c.o, AddGroup(EvOf(c.o), c.l, c.e))
DirFile(dir, g) == IF dir \in DOMAIN DIRS THEN DIRS[dir][g] ELSE "none"
AddFile(e, dir, g) ==
  IF dir \notin DOMAIN DIRS \/ g \notin DOMAIN DIRS[dir] THEN [ok |-> FALSE, ev |-> e]
  ELSE AddLines(e, DIRS[dir][g])
ErrAccents(c) ==
  LET r == AddFile(EvOf(c.o), c.dir, c.g) IN
  /\ HasEv(c.o)
  /\ Outcome(c, r.ok, {"C10"})
  /\ heap' = SetEv(c.o, r.ev)
ErrStandard(c) ==
  LET r1 == AddFile(EvOf(c.o), c.dir, "latin")
      r2 == AddFile(r1.ev, c.dir, "greek")
      ok == r1.ok /\ r2.ok
  IN
  /\ HasEv(c.o)
  /\ Outcome(c, ok, {"C10"})
  /\ heap' = SetEv(c.o, IF ok THEN AddKeyboard(r2.ev) ELSE IF r1.ok THEN r2.ev ELSE r1.ev)
ErrGet(c) ==
  /\ HasEv(c.o) /\ Read
  /\ Obs({"C09", "C10", "C11", "C26"},
         \A i \in DOMAIN c.ps : /\ c.r.es[i] = SubError(EvOf(c.o), c.ps[i][1], c.ps[i][2])
                                /\ c.r.rs[i] = c.r.es[i])
ErrVals(c) ==
  LET e == EvOf(c.o) IN
  /\ HasEv(c.o) /\ Read
  /\ Obs({"C09", "C12", "C26"}, c.r.ins = e.ins /\ c.r.del = e.del /\ c.r.endd = e.endd /\ c.r.tr = e.tr)
  /\ Obs({"C09", "C12", "C26"}, \A n \in DOMAIN c.r.st : c.r.st[n] = StartError(e, n - 1))
ErrDefaults(c) ==   \* the constants of the error model; what is no letter is refused
  /\ HasEv(c.o) /\ Read
  /\ Obs({"C09", "C12", "C24"}, c.r.def = DefaultError /\ c.r.sub = SubstringError)
  /\ Obs({"C24"}, Has(c.r, "bad") => \A i \in DOMAIN c.r.bad : c.r.bad[i])
ErrInGroup(c) ==
  /\ HasEv(c.o) /\ Read
  /\ Obs({"C09", "C10"}, \A i \in DOMAIN c.l : c.r.g[i] = (c.l[i] \in DOMAIN EvOf(c.o).grp))

------------------------------------------------------------------------------
(* Field weights (in quarters), alone or inside a matcher *)
HasWt(o) == Is(o, "weights") \/ Is(o, "matcher")
WeightOf(wt, f) == IF f \in DOMAIN wt THEN wt[f] ELSE 4
WeightsNew(c) == Fresh(c, WeightsObj) /\ Quiet
WeightSet(c) == /\ HasWt(c.o) /\ heap' = Put(c.o, [heap[c.o] EXCEPT !.wt = (c.f :> c.v) @@ @])
                /\ Obs({"C14", "C21"}, Has(c.r, "same") => c.r.same)
                /\ Quiet
WeightGet(c) == /\ HasWt(c.o) /\ Read
                /\ Obs({"C14", "C26"}, c.r.v = WeightOf(heap[c.o].wt, c.f))

WeightDrop(c) == /\ HasWt(c.o) /\ Obs({"C14", "C24"}, c.r.v = WeightOf(heap[c.o].wt, c.f))
                 /\ Delete(c)

------------------------------------------------------------------------------
(* Result filters and search parameters *)
HasTerms(o) == Is(o, "filter") \/ Is(o, "params")
FilterNew(c) == Fresh(c, FilterObj(<< <<>> >>)) /\ Quiet
ParamsNew(c) == Fresh(c, ParamsObj) /\ Quiet
FilterTerm(c) == /\ HasTerms(c.o) /\ heap' = Put(c.o, [heap[c.o] EXCEPT !.terms = Append(@, <<>>)])
                 /\ Quiet
FilterSub(c) ==
  /\ HasTerms(c.o)
  /\ heap' = Put(c.o, [heap[c.o] EXCEPT !.terms =
                 [@ EXCEPT ![Len(@)] = Append(@, <<c.f, c.w>>)]])
  /\ Quiet
FilterObs(c) ==
  LET ts == heap[c.o].terms IN
  /\ HasTerms(c.o) /\ Read
  /\ Obs({"C16"}, c.r.n = Len(ts) /\ c.r.ts = ts)
  /\ Obs({"C16"}, Has(c.r, "oob") => \A i \in DOMAIN c.r.oob : c.r.oob[i])
ParamsDynamic(c) == /\ Is(c.o, "params") /\ heap' = Put(c.o, [heap[c.o] EXCEPT !.dyn = c.v])
                    /\ Quiet
ParamsExclude(c) == /\ Is(c.o, "params") /\ heap' = Put(c.o, [heap[c.o] EXCEPT !.nos = @ \cup {c.f}])
                    /\ Quiet
Dynamic(q) == IF Len(q) < 2 THEN DefaultError ELSE 2 * DefaultError
ParamsObs(c) ==
  LET p == heap[c.o] IN
  /\ Is(c.o, "params") /\ Read
  /\ Obs({"C16"}, c.r.dyn = p.dyn)
  /\ Obs({"C16"}, \A i \in DOMAIN c.fs : c.r.nos[i] = (c.fs[i] \in p.nos))
  /\ Obs({"C13"}, \A i \in DOMAIN c.fs : c.r.de[i] = Dynamic(c.fs[i]))

------------------------------------------------------------------------------
(* Matchers *)
MatcherNew(c) == Fresh(c, MatcherObj) /\ Quiet
IndexField(m, ids, f, ws) ==     \* the same words for each of the documents ids
  LET p == IF f \in DOMAIN m.post THEN m.post[f] ELSE <<>>
      old(w) == IF w \in DOMAIN p THEN p[w] ELSE [n |-> 0, docs |-> {}]
      R == Range(ws)
      more == Cardinality(ids)
      add(new) == [w \in R |-> [n |-> old(w).n + new[w] * more, docs |-> old(w).docs \cup ids]]
      added == CHOOSE x \in {add(new) : new \in {Bag(ws)}} : TRUE     \* (one evaluation of Bag)
  IN
  [m EXCEPT !.post = IF ws = <<>> THEN @ ELSE (f :> (added @@ p)) @@ @,
            !.size = [k \in ids \X {f} |-> Len(ws)] @@ @,
            !.names = @ \cup {f} \cup R]
IdsOf(d) == IF d.t = "doc" THEN {d.id} ELSE d.id..(d.id + d.n - 1)
IndexDoc(m, d) == FoldLeft(LAMBDA acc, f : IndexField(acc, IdsOf(d), f, d.f[f]), m, SortedWords(DOMAIN d.f))
Indexed(m, docs) == FoldLeft(IndexDoc, m, docs)
PostingsOf(docs) == UNION {UNION {IdsOf(docs[i]) \X {f} \X Range(docs[i].f[f]) :
                                  f \in DOMAIN docs[i].f} : i \in DOMAIN docs}
MatcherIndex(c) ==
  /\ Is(c.o, "matcher") /\ Is(c.s, "corpus")
  /\ Outcome(c, TRUE, {"C13"})
  /\ heap' = Put(c.o, Indexed(heap[c.o], V(c.s)))

(* the words of field f within the allowance of some query word, at least cost *)
Allow(p, q) == IF p.dyn THEN Dynamic(q) ELSE 2 * DefaultError
Best(m, p, Q, f) ==
  LET cost == [w \in DOMAIN m.post[f] \ {<<>>} |->
                 LET C == {y \in {<<q, EditCost(q, w, m.ev)>> : q \in Q} : y[2] <= Allow(p, y[1])}
                 IN  IF C = {} THEN -1 ELSE Min({y[2] : y \in C})]
  IN  [w \in {w \in DOMAIN cost : cost[w] >= 0} |-> cost[w]]
Searched(m, p) == DOMAIN m.post \ p.nos
(* docs: those matched; terms: what contributes to relevancy *)
Hits(m, p, Q) ==
  LET best == [f \in Searched(m, p) |-> Best(m, p, Q, f)] IN
  [terms |-> UNION {{<<f, w, best[f][w]>> : w \in DOMAIN best[f]} : f \in DOMAIN best},
   docs  |-> UNION {UNION {m.post[f][w].docs : w \in DOMAIN best[f]} : f \in DOMAIN best}]

(* closeness * rarity * weight in units of 0.00001, truncated:                  *)
(* 100/(100+e) * (M+1-n)/(M+1) * w/4                                            *)
Digits(num, den, k) ==   \* floor(num/den * 10^k) without large intermediate values
  FoldLeft(LAMBDA acc, i : [q |-> acc.q * 10 + (acc.r * 10) \div den, r |-> (acc.r * 10) % den],
           [q |-> num \div den, r |-> num % den], [i \in 1..k |-> i]).q
Score(m, f, w, e) ==
  LET big == Max({m.post[f][x].n : x \in DOMAIN m.post[f] \ {<<>>}})
      n == m.post[f][w].n
      wt == WeightOf(m.wt, f)
      mag == Digits(100 * (big + 1 - n) * (IF wt < 0 THEN -wt ELSE wt), (100 + e) * (big + 1) * 4, 5)
  IN IF wt < 0 THEN -mag ELSE mag
Relevancy(m, hits, d) ==
  MapThenSumSet(LAMBDA t : Score(m, t[1], t[2], t[3]),
                {t \in hits.terms : d \in m.post[t[1]][t[2]].docs})
Close(a, b, tol) == a - b <= tol /\ b - a <= tol

(* filters *)
Meets(m, term, d) ==
  \A i \in DOMAIN term :
     LET f == term[i][1] w == term[i][2] IN
     f \in DOMAIN m.post /\ w \in DOMAIN m.post[f] /\ d \in m.post[f][w].docs
Passes(m, p, d) == \E i \in DOMAIN p.terms : Meets(m, p.terms[i], d)

(* a result list: a sequence of <<document, relevancy>> *)
ResDocs(ds) == {ds[i][1] : i \in DOMAIN ds}
Once(ds) == Cardinality(ResDocs(ds)) = Len(ds)
RelOf(ds, d) == ds[CHOOSE i \in DOMAIN ds : ds[i][1] = d][2]

Query(c) == IF Has(c, "b") \/ Has(c, "ts") THEN ListText(c) ELSE [ok |-> TRUE, v |-> c.q]
ParamsOf(c) == IF Has(c, "p") THEN heap[c.p] ELSE ParamsObj

MatchDocs(m, p, Q) == {d \in Hits(m, p, Q).docs : Passes(m, p, d)}
MayDocs(m, p, Q) ==   \* documents that a failed index call may have made matchable
  {t[1] : t \in {t \in m.may : t[2] \notin p.nos /\ \E q \in Q : EditCost(q, t[3], m.ev) <= Allow(p, q)}}
(* requirements that may be met thanks to a failed index call: none asked for   *)

Matched(m, p, Q, ds) ==
  IF m.vague
  THEN MatchDocs(m, p, Q) \subseteq ResDocs(ds) /\ ResDocs(ds) \subseteq MatchDocs(m, p, Q) \cup MayDocs(m, p, Q)
  ELSE ResDocs(ds) = MatchDocs(m, p, Q)
Scored(m, p, Q, ds) ==
  LET h == Hits(m, p, Q) IN
  m.vague \/ \A i \in DOMAIN ds : ds[i][1] \in h.docs =>
               Close(ds[i][2], Relevancy(m, h, ds[i][1]), Cardinality(h.terms) + 2)

MatcherMatch(c) ==
  LET m == heap[c.o]
      q == Query(c)
      p == ParamsOf(c)
      Q == Range(q.v)
  IN
  /\ Is(c.o, "matcher") /\ (Has(c, "p") => Is(c.p, "params"))
  /\ UNCHANGED heap
  /\ Outcome(c, q.ok, {"C13"})
  /\ Mirrors(c)
  /\ q.ok /\ ~skip' =>
     /\ Obs({"C13", "C26", "C12", "C22"}, Matched(m, p, Q, c.r.ds))
     /\ Obs({"C13"}, Once(c.r.ds))
     /\ Obs({"C14", "C26"}, Scored(m, p, Q, c.r.ds))
     /\ Obs({"C14"}, c.r.desc)
     \* against the same match without the filter
     /\ Obs({"C16"}, Has(c.r, "base") =>
          /\ ResDocs(c.r.ds) = {d \in ResDocs(c.r.base) : Passes(m, p, d)}
          /\ Once(c.r.ds)
          /\ \A d \in ResDocs(c.r.ds) : RelOf(c.r.ds, d) = RelOf(c.r.base, d))
     \* excluded fields contribute nothing
     /\ Obs({"C16"}, p.nos # {} => ResDocs(c.r.ds) \subseteq Hits(m, p, Q).docs /\
                                   Scored(m, p, Q, c.r.ds))

MatcherMerge(c) ==   \* several matches gathered in one result list
  LET m == heap[c.o] IN
  /\ Is(c.o, "matcher") /\ Read
  /\ \A i \in DOMAIN c.bs : Split(c.bs[i]).ok
  /\ Obs({"C15"}, c.r.desc)
  /\ Obs({}, m.vague \/ LET all == FoldLeft(LAMBDA acc, b : acc \o SetToSeq(MatchDocs(m, ParamsObj, Range(Split(b).v))), <<>>, c.bs)
                        IN Bag([i \in DOMAIN c.r.ds |-> c.r.ds[i][1]]) = Bag(all))

Exacts(m, q, f, d) ==   \* query words found exactly in the document's field
  Cardinality({i \in DOMAIN q : q[i] # <<>> /\ f \in DOMAIN m.post /\ q[i] \in DOMAIN m.post[f]
                                 /\ d \in m.post[f][q[i]].docs})
SizeOf(m, d, f) == IF <<d, f>> \in DOMAIN m.size THEN m.size[<<d, f>>] ELSE 0
Bonus(m, q, f, d) ==
  LET n == Exacts(m, q, f, d) IN
  2 * n + (IF n > 0 /\ n = Len(q) /\ n = SizeOf(m, d, f) THEN 100 ELSE 0)
MatcherOnline(c) ==
  LET m == heap[c.o]
      known == c.f \in m.names
      Q == Range(c.q)
      h == Hits(m, ParamsObj, Q)
      ds == c.r.ds
  IN
  /\ Is(c.o, "matcher") /\ UNCHANGED heap
  /\ Outcome(c, known, {"C20", "C17"})
  /\ known /\ ~skip' =>
     /\ Obs({"C20"}, Once(ds) /\ c.r.desc)
     /\ Obs({"C20"}, ResDocs(ds) = ResDocs(c.r.base))
     /\ Obs({"C20"}, \A d \in ResDocs(ds) : d \in ResDocs(c.r.base) =>
                        Close(RelOf(ds, d) - RelOf(c.r.base, d), 100000 * Bonus(m, c.q, c.f, d), 2))
     /\ Obs({}, Matched(m, ParamsObj, Q, ds))
     /\ Obs({}, m.vague \/ \A d \in ResDocs(ds) :
             Close(RelOf(ds, d), Relevancy(m, h, d) + 100000 * Bonus(m, c.q, c.f, d), Cardinality(h.terms) + 2))

------------------------------------------------------------------------------
(* Result lists: entries <<document, rank>>; a higher rank is more relevant *)
Reading(v) ==   \* stable: by falling rank, then in order of addition
  LET less(a, b) == v[a][2] > v[b][2] \/ (v[a][2] = v[b][2] /\ a < b)
      idx == SetToSortSeq(DOMAIN v, less)
  IN [i \in DOMAIN v |-> v[idx[i]]]
ResNew(c) == Fresh(c, ResultsObj(<<>>)) /\ Quiet
ResCopy(c) == Is(c.s, "results") /\ Fresh(c, heap[c.s]) /\ Quiet
ResMove(c) == /\ Is(c.s, "results") /\ c.o \notin DOMAIN heap
              /\ heap' = PutIn(Put(c.o, heap[c.s]), c.s, ResultsObj(<<>>))
              /\ Quiet
ResAssign(c) == /\ Is(c.o, "results") /\ Is(c.s, "results")
                /\ heap' = Put(c.o, heap[c.s]) /\ Quiet
ResMoveAssign(c) == /\ Is(c.o, "results") /\ Is(c.s, "results") /\ c.o # c.s
                    /\ heap' = PutIn(Put(c.o, heap[c.s]), c.s, ResultsObj(<<>>))
                    /\ Quiet
ResAdd(c) ==     \* one entry, or c.n of them for documents from c.id on
  LET new == IF Has(c, "n") THEN [i \in 1..c.n |-> <<c.id + i - 1, c.k>>] ELSE << <<c.id, c.k>> >> IN
  /\ Is(c.o, "results")
  /\ heap' = Put(c.o, ResultsObj(V(c.o) \o new)) /\ Quiet
(* merging adds all entries of the other list, best first among equals as read *)
ResAddAll(c) == /\ Is(c.o, "results") /\ Is(c.s, "results") /\ c.o # c.s
                /\ heap' = Put(c.o, ResultsObj(V(c.o) \o V(c.s))) /\ Quiet
ResCopyOne(c) ==
  LET there == c.i >= 0 /\ c.i < Len(V(c.s)) IN
  /\ Is(c.o, "results") /\ Is(c.s, "results")
  /\ Outcome(c, there, {"C15"})
  /\ heap' = IF there THEN Put(c.o, ResultsObj(Append(V(c.o), Reading(V(c.s))[c.i + 1]))) ELSE heap
ResObs(c) ==
  /\ Is(c.o, "results") /\ Read
  /\ Obs({"C15"}, c.r.n = Len(V(c.o)) /\ (Has(c.r, "ds") => c.r.ds = Reading(V(c.o))))
  /\ Obs({"C15"}, Has(c.r, "oob") => \A i \in DOMAIN c.r.oob : c.r.oob[i])
  /\ Mirrors(c)
ResRead(c) ==   \* one position only
  LET there == c.i >= 0 /\ c.i < Len(V(c.o)) IN
  /\ Is(c.o, "results") /\ UNCHANGED heap
  /\ Outcome(c, there, {"C15"})
  /\ Obs({"C15"}, there => c.r.e = Reading(V(c.o))[c.i + 1])

------------------------------------------------------------------------------
(* Failures of the backing storage: the call is refused and, for stores and     *)
(* dictionaries, nothing changed; a matcher may hold any part of the corpus.    *)
Faulted(c) ==
  /\ Obs({"C22"}, Has(c.r, "ok") => ~c.r.ok)     \* some C functions cannot tell
  /\ IF Has(c.r, "ok") /\ c.r.ok THEN skip' = TRUE ELSE skip' = FALSE
  /\ CASE c.op = "m.idx" ->
           heap' = Put(c.o, [heap[c.o] EXCEPT !.vague = TRUE, !.may = @ \cup PostingsOf(V(c.s)),
                                             !.names = @])
       [] c.op = "i.fam" -> \* the words before the failure are in
           heap' = Put(c.o, [heap[c.o] EXCEPT !.fams = Append(@,
                     Family(c, c.r.done, c.id))])
       [] c.op = "s.fam" ->
           heap' = Put(c.o, [heap[c.o] EXCEPT !.n = @ + c.r.done, !.fams = Append(@,
                     Family(c, c.r.done, heap[c.o].n))])
       [] OTHER -> UNCHANGED heap

(* Resources: with nothing alive, nothing is held *)
Resources(c) ==
  /\ Read
  /\ Obs({"C23"}, DOMAIN heap = {} => c.r.fd = 0 /\ c.r.map = 0 /\ c.r.blocks = 0 /\ c.r.bytes = 0)
NullDelete(c) == Read   \* deleting null handles does nothing
Reset(c) == heap' = <<>> /\ skip' = FALSE

------------------------------------------------------------------------------
Step(c) ==
  CASE c.op = "w.new" -> WordNew(c)       [] c.op = "w.let" -> WordArray(c)
    [] c.op = "w.empty" -> WordEmpty(c)   [] c.op = "w.copy" -> WordCopy(c)
    [] c.op = "w.move" -> WordMove(c)     [] c.op = "w.set" -> WordAssign(c)
    [] c.op = "w.mset" -> WordMoveAssign(c) [] c.op = "w.text" -> WordSetText(c)
    [] c.op = "w.join" -> WordJoin(c)     [] c.op = "w.obs" -> WordObs(c)
    [] c.op = "w.cmp" -> WordCmp(c)       [] c.op = "w.eqt" -> WordEqText(c)
    [] c.op = "w.utf8" -> WordUtf8(c)
    [] c.op = "l.split" -> ListSplit(c)   [] c.op = "l.new" -> ListNew(c)
    [] c.op = "l.copy" -> ListCopy(c)     [] c.op = "l.move" -> ListMove(c)
    [] c.op = "l.set" -> ListAssign(c)    [] c.op = "l.mset" -> ListMoveAssign(c)
    [] c.op = "l.add" -> ListAdd(c)       [] c.op = "l.obs" -> ListObs(c)
    [] c.op = "l.cmp" -> ListCmp(c)       [] c.op = "l.drop" -> ListDrop(c)
    [] c.op = "d.new" -> DocNew(c)        [] c.op = "d.copy" -> DocCopy(c)
    [] c.op = "d.set" -> DocAssign(c)     [] c.op = "d.text" -> DocText(c)
    [] c.op = "d.words" -> DocWords(c)    [] c.op = "d.obs" -> DocObs(c)
    [] c.op = "d.id" -> DocId(c)          [] c.op = "d.n" -> DocFields(c)
    [] c.op = "d.drop" -> DocDrop(c)
    [] c.op = "d.get" -> DocGet(c)        [] c.op = "d.cnt" -> DocCount(c)
    [] c.op = "c.new" -> CorpusNew(c)     [] c.op = "c.add" -> CorpusAdd(c)
    [] c.op = "c.obs" -> CorpusObs(c)
    [] c.op = "s.new" -> StoreNew(c)      [] c.op = "s.id" -> StoreId(c)
    [] c.op = "s.has" -> StoreHas(c)      [] c.op = "s.hasid" -> StoreHasId(c)
    [] c.op = "s.word" -> StoreWord(c)    [] c.op = "s.fam" -> StoreFam(c)
    [] c.op = "i.new" -> IndexNew(c)      [] c.op = "i.ins" -> IndexInsert(c)
    [] c.op = "i.fam" -> IndexFam(c)      [] c.op = "i.has" -> IndexHas(c)
    [] c.op = "i.stat" -> IndexStat(c)    [] c.op = "i.find" -> IndexFind(c)
    [] c.op = "q.new" -> HitsNew(c)       [] c.op = "q.clear" -> HitsClear(c)
    [] c.op = "q.obs" -> HitsObs(c)
    [] c.op = "dup" -> Dup(c)
    [] c.op = "e.new" -> ErrNew(c)        [] c.op = "e.set" -> ErrPair(c)
    [] c.op = "e.grp" -> ErrGroup(c)      [] c.op = "e.acc" -> ErrAccents(c)
    [] c.op = "e.kbd" -> ErrKeyboard(c)   [] c.op = "e.pad" -> ErrPad(c)
    [] c.op = "e.std" -> ErrStandard(c)   [] c.op = "e.clr" -> ErrClear(c)
    [] c.op = "e.sub" -> ErrSubstring(c)  [] c.op = "e.val" -> ErrScalar(c)
    [] c.op = "e.err" -> ErrGet(c)        [] c.op = "e.vals" -> ErrVals(c)
    [] c.op = "e.ing" -> ErrInGroup(c)    [] c.op = "e.def" -> ErrDefaults(c)
    [] c.op = "x.new" -> WeightsNew(c)    [] c.op = "x.set" -> WeightSet(c)
    [] c.op = "x.get" -> WeightGet(c)     [] c.op = "x.drop" -> WeightDrop(c)
    [] c.op = "f.new" -> FilterNew(c)     [] c.op = "p.new" -> ParamsNew(c)
    [] c.op = "f.term" -> FilterTerm(c)   [] c.op = "f.sub" -> FilterSub(c)
    [] c.op = "f.obs" -> FilterObs(c)     [] c.op = "p.dyn" -> ParamsDynamic(c)
    [] c.op = "p.nos" -> ParamsExclude(c) [] c.op = "p.obs" -> ParamsObs(c)
    [] c.op = "m.new" -> MatcherNew(c)    [] c.op = "m.idx" -> MatcherIndex(c)
    [] c.op = "m.match" -> MatcherMatch(c) [] c.op = "m.online" -> MatcherOnline(c)
    [] c.op = "m.merge" -> MatcherMerge(c)
    [] c.op = "r.new" -> ResNew(c)        [] c.op = "r.copy" -> ResCopy(c)
    [] c.op = "r.move" -> ResMove(c)      [] c.op = "r.set" -> ResAssign(c)
    [] c.op = "r.mset" -> ResMoveAssign(c) [] c.op = "r.add" -> ResAdd(c)
    [] c.op = "r.all" -> ResAddAll(c)     [] c.op = "r.one" -> ResCopyOne(c)
    [] c.op = "r.obs" -> ResObs(c)        [] c.op = "r.read" -> ResRead(c)
    [] c.op = "del" -> Delete(c)          [] c.op = "null" -> NullDelete(c)
    [] c.op = "z.res" -> Resources(c)     [] c.op = "reset" -> Reset(c)
    [] OTHER -> FALSE
=============================================================================
