--------------------------------- MODULE Gen ---------------------------------
(* Behaviours of Columbus over small pools of commands, every transition of    *)
(* the bounded state graph once: each is printed as a command sequence (from   *)
(* the initial state, by a shortest path) and run against the real library,    *)
(* whose answers are then decided by Trace.tla.                                *)
(*                                                                             *)
(* The graph is finer than the specification's own states: `prov` remembers,   *)
(* per object, the call that last wrote it and the calls that have looked at   *)
(* it since, because that is where an implementation can hide state of its own *)
(* (lazy sorting, caches, shared buffers).                                     *)
EXTENDS Columbus, Json, IOUtils

VARIABLES hist, prov
gvars == <<heap, skip, hist, prov>>

PoolName == IOEnv.POOL
Depth == atoi(IOEnv.DEPTH)
FineArg == IOEnv.FINE      \* "1": prov is part of the state, "0": it is not
EnvDirs == <<>>

R(h, o, t) == o \in DOMAIN h /\ h[o].t = t
Names(h, t) == {o \in DOMAIN h : h[o].t = t}
Seq0(S) == SetToSeq(S)

a == 97  b == 98
\* letters: a, b, one outside ASCII, a surrogate pair
Wide1 == 609     \* 0x261: its low byte is that of a
PairU == <<55357, 56832>>
Words2 == {<<>>, <<a>>, <<b>>, <<a, a>>, <<a, b>>, <<b, a>>, <<b, b>>}

------------------------------------------------------------------------------
(* words *)
WordPool(h) ==
  LET O == {"u", "v", "w"} IN
  {[op |-> "w.let", o |-> o, l |-> l] : o \in O, l \in {<<>>, <<a>>, <<b, Wide1>>, PairU}}
  \cup {[op |-> "w.new", o |-> o, b |-> t, via |-> "str"] : o \in O, t \in {<<65>>, <<195, 137>>, <<97, 32>>}}
  \cup {[op |-> x, o |-> o, s |-> s] : x \in {"w.copy", "w.move", "w.set", "w.mset"}, o \in O, s \in O}
  \cup {[op |-> "w.text", o |-> o, b |-> t, via |-> "cstr"] : o \in O, t \in {<<>>, <<66, 97>>, <<97, 195>>}}
  \cup {[op |-> "w.join", o |-> o, s |-> s, s2 |-> s2] : o \in O, s \in O, s2 \in O}
  \cup {[op |-> "del", o |-> o] : o \in O}
WordOk(h) == \A o \in DOMAIN h : Len(h[o].v) <= 4
WordEnd(h) ==
  LET N == Seq0(DOMAIN h) IN
  [i \in DOMAIN N |-> [op |-> "w.obs", o |-> N[i], u |-> 1]]
  \o [k \in 1..(Len(N) * Len(N)) |-> [op |-> "w.cmp", o |-> N[((k-1) \div Len(N)) + 1], s |-> N[((k-1) % Len(N)) + 1]]]
  \o (IF N = <<>> THEN <<>> ELSE
      [k \in 1..3 |-> [op |-> "w.utf8", o |-> N[1],
                       n |-> Len(ToUtf8(h[N[1]].v)) + k - 1]])

------------------------------------------------------------------------------
(* word lists *)
ListPool(h) ==
  LET O == {"k", "l", "m"} IN
  {[op |-> "l.split", o |-> o, b |-> t] : o \in O, t \in {<<>>, <<9, 65, 10, 98, 97, 32>>, <<65, 32, 97, 32, 97>>, <<97, 32, 255, 32, 98>>}}
  \cup {[op |-> "l.new", o |-> o] : o \in O}
  \cup {[op |-> x, o |-> o, s |-> s] : x \in {"l.copy", "l.move", "l.set", "l.mset"}, o \in O, s \in O}
  \cup {[op |-> "l.add", o |-> o, w |-> w] : o \in O, w \in {<<>>, <<a>>, <<b>>}}
  \cup {[op |-> "l.add", o |-> o, s |-> "w"] : o \in O}
  \cup {[op |-> "w.let", o |-> "w", l |-> <<a, b>>], [op |-> "w.text", o |-> "w", b |-> <<98>>, via |-> "cstr"], [op |-> "del", o |-> "w"]}
  \cup {[op |-> "del", o |-> o] : o \in O}
ListOk(h) == \A o \in DOMAIN h : Len(h[o].v) <= 4
ListEnd(h) ==
  LET N == Seq0(Names(h, "list")) IN
  [i \in DOMAIN N |-> [op |-> "l.obs", o |-> N[i]]]
  \o [k \in 1..(Len(N) * Len(N)) |-> [op |-> "l.cmp", o |-> N[((k-1) \div Len(N)) + 1], s |-> N[((k-1) % Len(N)) + 1]]]

------------------------------------------------------------------------------
(* word stores: every order in which words can be given identifiers *)
StoreWords == Words2 \cup {<<Wide1>>, <<a, Wide1>>}
StorePre == << [op |-> "s.new", o |-> "s"] >>
StorePool(h) ==
  {[op |-> "s.id", o |-> "s", w |-> w] : w \in StoreWords}
StoreEnd(h) ==
  LET W == SortedWords(StoreWords \cup {<<a, a, a>>, <<a, b, b>>})
      K == SortedWords(DOMAIN h["s"].ids) IN
  [i \in DOMAIN W |-> [op |-> "s.has", o |-> "s", w |-> W[i]]]
  \o [i \in 1..(h["s"].n + 2) |-> [op |-> "s.word", o |-> "s", id |-> i - 1]]
  \o << [op |-> "s.word", o |-> "s", id |-> -1], [op |-> "s.hasid", o |-> "s", id |-> h["s"].n], [op |-> "s.hasid", o |-> "s", id |-> h["s"].n - 1] >>
  \o [i \in DOMAIN K |-> [op |-> "s.id", o |-> "s", w |-> K[i]]]

------------------------------------------------------------------------------
(* dictionaries and searches *)
IdFor(w) == FoldLeft(LAMBDA acc, l : acc * 4 + (IF l = a THEN 1 ELSE IF l = b THEN 2 ELSE 3), 0, w)
DictWords == Words2 \cup {<<b, a, Wide1>>}
DictPre == << [op |-> "i.new", o |-> "i"], [op |-> "e.new", o |-> "e"], [op |-> "q.new", o |-> "q"] >>
DictPool(h) ==
  {[op |-> "i.ins", o |-> "i", w |-> w, id |-> IdFor(w)] : w \in DictWords}
  \cup {[op |-> "i.find", o |-> "i", q |-> q, e |-> "e", max |-> 100, s |-> "q"] : q \in {<<a, b>>, <<b>>}}
  \cup {[op |-> "q.clear", o |-> "q"]}
  \cup {[op |-> "e.val", o |-> "e", k |-> "tr", v |-> 40], [op |-> "e.set", o |-> "e", x |-> a, y |-> b, e |-> 30],
        [op |-> "e.sub", o |-> "e"]}
DictOk(h) == R(h, "q", "hits") => Len(h["q"].v) <= 6
DictEnd(h) ==
  LET W == SortedWords((DictWords \cup {<<a, a, a>>, <<b, a, b>>}) \ {<<>>})
      Q == << <<>>, <<b>>, <<a, b>>, <<b, a>>, <<b, a, Wide1>> >> IN
  [i \in DOMAIN W |-> [op |-> "i.has", o |-> "i", w |-> W[i]]]
  \o << [op |-> "i.stat", o |-> "i", ids |-> [i \in DOMAIN W |-> IdFor(W[i])]], [op |-> "q.obs", o |-> "q"] >>
  \o FoldLeft(LAMBDA acc, i : acc \o << [op |-> "q.clear", o |-> "q"],
                 [op |-> "i.find", o |-> "i", q |-> Q[i], e |-> "e", max |-> IF i % 2 = 0 THEN 200 ELSE 100, s |-> "q"] >>,
              <<>>, [i \in DOMAIN Q |-> i])

------------------------------------------------------------------------------
(* error tables *)
ErrLetters == <<a, b, 99, 511, 512, Wide1>>
ErrPre == << [op |-> "e.new", o |-> "d"], [op |-> "e.new", o |-> "e"] >>
ErrPool(h) ==
  {[op |-> "e.set", o |-> "e", x |-> p[1], y |-> p[2], e |-> p[3]] : p \in {<<a, b, 0>>, <<b, a, 70>>, <<512, a, 30>>, <<511, 512, 100>>, <<a, a, 50>>}}
  \cup {[op |-> "e.grp", o |-> "e", l |-> p[1], e |-> p[2]] : p \in {<<<<a, b>>, 20>>, <<<<b, 512>>, 60>>, <<<<99, 511>>, 5>>, <<<<Wide1>>, 9>>}}
  \cup {[op |-> x, o |-> "e"] : x \in {"e.clr", "e.pad", "e.sub", "e.kbd"}}
  \cup {[op |-> "e.val", o |-> "e", k |-> k, v |-> 44] : k \in {"ins", "endd", "st"}}
  \cup {[op |-> "e.val", o |-> "e", k |-> "lim", v |-> 2], [op |-> "e.set", o |-> "d", x |-> a, y |-> b, e |-> 11]}
ErrPairsList == [k \in 1..36 |-> <<ErrLetters[((k-1) \div 6) + 1], ErrLetters[((k-1) % 6) + 1]>>]
ErrEnd(h) ==
  LET o2 == << [op |-> "e.err", o |-> "e", ps |-> ErrPairsList], [op |-> "e.ing", o |-> "e", l |-> ErrLetters],
               [op |-> "e.vals", o |-> "e"] >> IN
  o2 \o << [op |-> "e.err", o |-> "d", ps |-> ErrPairsList], [op |-> "e.vals", o |-> "d"] >>

------------------------------------------------------------------------------
(* result lists: entries with three ranks, all interleavings of additions, *)
(* copies, moves, merges and readings *)
ResPool(h) ==
  LET O == {"p", "r"} IN
  {[op |-> "r.new", o |-> o] : o \in O}
  \cup {[op |-> "r.add", o |-> o, id |-> Len(h[o].v) + (IF o = "p" THEN 1 ELSE 11), k |-> k] : o \in DOMAIN h, k \in {2, 5, 9}}
  \cup {[op |-> x, o |-> o, s |-> s] : x \in {"r.copy", "r.move", "r.set", "r.mset", "r.all"}, o \in O, s \in O}
  \cup {[op |-> "r.one", o |-> o, s |-> s, i |-> i] : o \in O, s \in O, i \in {0, 1}}
  \cup {[op |-> "r.read", o |-> o, i |-> 0] : o \in O} \cup {[op |-> "r.read", o |-> o, i |-> 1, rel |-> 1] : o \in O}
  \cup {[op |-> "del", o |-> o] : o \in O}
ResOk(h) == \A o \in DOMAIN h : Len(h[o].v) <= 5
ResEnd(h) == LET N == Seq0(DOMAIN h) IN [i \in DOMAIN N |-> [op |-> "r.obs", o |-> N[i]]]

------------------------------------------------------------------------------
(* documents and corpora *)
DocPre == << [op |-> "l.split", o |-> "l", b |-> <<97, 32, 98, 32, 97>>] >>
DocPool(h) ==
  LET O == {"d", "e"} IN
  {[op |-> "d.new", o |-> o, id |-> IF o = "d" THEN 7 ELSE 19] : o \in O}
  \cup {[op |-> "d.text", o |-> o, f |-> f, b |-> t, via |-> "cstr"] : o \in O, f \in {<<a>>, <<b>>}, t \in {<<>>, <<65, 32, 97>>, <<97, 32, 128>>}}
  \cup {[op |-> "d.words", o |-> o, f |-> <<a>>, s |-> "l"] : o \in O}
  \cup {[op |-> "l.add", o |-> "l", w |-> <<99>>]}
  \cup {[op |-> x, o |-> o, s |-> s] : x \in {"d.copy", "d.set"}, o \in O, s \in O}
  \cup {[op |-> "c.new", o |-> "c"]} \cup {[op |-> "c.add", o |-> "c", s |-> o] : o \in O}
  \cup {[op |-> "del", o |-> o] : o \in O \cup {"l"}}
DocOk(h) == (R(h, "c", "corpus") => Len(h["c"].v) <= 3) /\ (R(h, "l", "list") => Len(h["l"].v) <= 4)
DocEnd(h) ==
  LET D == Seq0(Names(h, "doc")) IN
  FoldLeft(LAMBDA acc, o : acc \o << [op |-> "d.obs", o |-> o], [op |-> "d.id", o |-> o], [op |-> "d.get", o |-> o, f |-> <<a>>],
              [op |-> "d.get", o |-> o, f |-> <<99>>], [op |-> "d.cnt", o |-> o, w |-> <<a>>, f |-> <<a>>],
              [op |-> "d.cnt", o |-> o, w |-> <<a>>, f |-> <<b>>] >>, <<>>, D)
  \o (IF R(h, "c", "corpus") THEN << [op |-> "c.obs", o |-> "c"] >> ELSE <<>>)

------------------------------------------------------------------------------
(* matchers. Fields t and n; documents 1 (t: abc abd abc), 2 (t: abc, n: ab b), *)
(* 3 (t: nothing, n: abd), 1 again (n: b b)                                     *)
t == <<116>>  n == <<110>>
abc == <<97, 98, 99>>  abd == <<97, 98, 100>>  ab == <<97, 98>>
TextOf(ws) == FoldLeft(LAMBDA acc, w : IF acc = <<>> THEN w ELSE acc \o <<32>> \o w, <<>>, ws)
MkDoc(o, id, tt, nn) ==
  << [op |-> "d.new", o |-> o, id |-> id], [op |-> "d.text", o |-> o, f |-> t, b |-> TextOf(tt), via |-> "cstr"] >>
  \o (IF nn = <<>> THEN <<>> ELSE << [op |-> "d.text", o |-> o, f |-> n, b |-> TextOf(nn), via |-> "cstr"] >>)
MkCorpus(o, ds) == << [op |-> "c.new", o |-> o] >> \o [i \in DOMAIN ds |-> [op |-> "c.add", o |-> o, s |-> ds[i]]]
MatchPre ==
  MkDoc("d1", 1, <<abc, abd, abc>>, <<>>) \o MkDoc("d2", 2, <<abc>>, <<ab, <<b>>>>) \o MkDoc("d3", 3, <<>>, <<abd>>)
  \o MkDoc("d4", 1, <<>>, <<<<b>>, <<b>>>>)
  \o MkCorpus("c1", <<"d1">>) \o MkCorpus("c2", <<"d2", "d3">>) \o MkCorpus("c3", <<"d4">>) \o MkCorpus("c0", <<>>)
  \o << [op |-> "m.new", o |-> "m"], [op |-> "p.new", o |-> "p"],
        [op |-> "f.sub", o |-> "p", f |-> t, w |-> abc], [op |-> "f.term", o |-> "p"], [op |-> "f.sub", o |-> "p", f |-> n, w |-> <<b>>] >>
Ask(m, q) == [op |-> "m.match", o |-> m, q |-> q, via |-> "wl"]
MatchPool(h) ==
  {[op |-> "m.idx", o |-> "m", s |-> c] : c \in {"c0", "c1", "c2", "c3"}}
  \cup {[op |-> "x.set", o |-> "m", f |-> f, v |-> v] : f \in {t, n}, v \in {0, 8}}
  \cup {[op |-> "e.set", o |-> "m", x |-> 99, y |-> 100, e |-> 20], [op |-> "e.sub", o |-> "m"], [op |-> "e.val", o |-> "m", k |-> "del", v |-> 60]}
  \cup {Ask("m", <<abc>>), Ask("m", << <<b>>, <<120, 121, 122>> >>)}
  \cup {[op |-> "m.online", o |-> "m", q |-> <<abc>>, f |-> f] : f \in {t, <<120, 121, 122>>}}
  \cup {[op |-> "m.match", o |-> "m", q |-> <<abd>>, via |-> "wl", p |-> "p", base |-> 1, nos |-> <<>>]}
MatchOk(h) == R(h, "m", "matcher") /\ t \in DOMAIN h["m"].post => \A w \in DOMAIN h["m"].post[t] : h["m"].post[t][w].n <= 4
MatchEnd(h) ==
  << Ask("m", <<abc>>), Ask("m", <<ab>>), Ask("m", << <<b>> >>), Ask("m", <<abd, <<99, 98>> >>), Ask("m", <<abc, abc>>),
     [op |-> "m.match", o |-> "m", q |-> <<abc>>, via |-> "wl", p |-> "p", base |-> 1, nos |-> <<>>],
     [op |-> "m.online", o |-> "m", q |-> <<abc>>, f |-> t], [op |-> "m.online", o |-> "m", q |-> << <<b>>, ab >>, f |-> n],
     [op |-> "m.online", o |-> "m", q |-> <<abc, abd, abc>>, f |-> t],
     [op |-> "m.online", o |-> "m", q |-> <<abc>>, f |-> <<120, 121, 122>>],
     [op |-> "x.get", o |-> "m", f |-> t], [op |-> "e.vals", o |-> "m"], [op |-> "e.err", o |-> "m", ps |-> << <<99, 100>>, <<97, 98>> >>] >>

(* Two matchers given the same documents by different calls (C17 C18 C26):      *)
(* answers have to agree whenever their specification states do                 *)
TwinPre == SubSeq(MatchPre, 1, Len(MatchPre) - 5) \o << [op |-> "m.new", o |-> "m"], [op |-> "m.new", o |-> "k"], [op |-> "p.new", o |-> "p"],
             [op |-> "f.sub", o |-> "p", f |-> t, w |-> abc] >> \o MkCorpus("c4", <<"d3", "d2", "d1">>)
TwinPool(h) ==
  {[op |-> "m.idx", o |-> m, s |-> c] : m \in {"m", "k"}, c \in {"c0", "c1", "c2", "c4"}}
  \cup {[op |-> "x.set", o |-> m, f |-> t, v |-> 8] : m \in {"m", "k"}}
  \cup {[op |-> "e.set", o |-> m, x |-> 99, y |-> 100, e |-> 20] : m \in {"m", "k"}}
  \cup {Ask("m", <<abc, <<122, 122>> >>), [op |-> "m.match", o |-> "m", q |-> <<abd>>, via |-> "wl", p |-> "p"],
        [op |-> "m.online", o |-> "m", q |-> << <<122, 122>> >>, f |-> t], [op |-> "m.online", o |-> "m", q |-> <<abc>>, f |-> <<122, 122>>]}
TwinOk(h) == MatchOk(h)
TwinEnd(h) ==
  FoldLeft(LAMBDA acc, m : acc \o << Ask(m, <<abc>>), Ask(m, <<ab, <<b>> >>), [op |-> "m.online", o |-> m, q |-> <<abc>>, f |-> t],
      [op |-> "m.online", o |-> m, q |-> <<abc>>, f |-> <<122, 122>>],
      [op |-> "m.match", o |-> m, q |-> <<abc>>, via |-> "wl", p |-> "p"], [op |-> "x.get", o |-> m, f |-> t],
      [op |-> "e.err", o |-> m, ps |-> << <<99, 100>> >>] >>, <<>>, <<"m", "k">>)

(* filters and parameters on a fixed matcher *)
FilterPre == SubSeq(MatchPre, 1, Len(MatchPre) - 4)
  \o << [op |-> "m.idx", o |-> "m", s |-> "c1"], [op |-> "m.idx", o |-> "m", s |-> "c2"], [op |-> "m.idx", o |-> "m", s |-> "c3"],
        [op |-> "p.new", o |-> "p"] >>
FilterPool(h) ==
  {[op |-> "f.term", o |-> "p"], [op |-> "p.dyn", o |-> "p", v |-> FALSE], [op |-> "p.nos", o |-> "p", f |-> t], [op |-> "p.nos", o |-> "p", f |-> n]}
  \cup {[op |-> "f.sub", o |-> "p", f |-> x[1], w |-> x[2]] :
          x \in {<<t, abc>>, <<t, abd>>, <<n, <<b>>>>, <<n, abc>>, <<<<122>>, abc>>, <<t, <<122>>>>, <<abc, abc>>}}
  \cup {[op |-> "m.match", o |-> "m", q |-> <<abd>>, via |-> "wl", p |-> "p", base |-> 1, nos |-> Seq0(h["p"].nos)]}
FilterEnd(h) ==
  << [op |-> "f.obs", o |-> "p"], [op |-> "p.obs", o |-> "p", fs |-> <<t, n, <<b>>, <<>> >>] >>
  \o FoldLeft(LAMBDA acc, q : Append(acc, [op |-> "m.match", o |-> "m", q |-> q, via |-> "wl", p |-> "p", base |-> 1, nos |-> Seq0(h["p"].nos)]),
              <<>>, << <<abc>>, << <<b>> >>, <<abd, ab>> >>)

------------------------------------------------------------------------------
(* storage that fails: long words, so that every few insertions the backing     *)
(* file has to grow, with the first or second storage call of an insertion      *)
(* failing, once or for as long as the insertion lasts. A failed insertion      *)
(* leaves the specification's state alone; how often that happened is part of   *)
(* the explored state, because it shifts where the next growth happens.         *)
Long(k, l) == [i \in 1..k |-> IF i = k THEN l ELSE a + (i % 3)]
FaultWords == << Long(12, 120), Long(17, 121), Long(30, 122), Long(31, 119), <<Wide1>> \o Long(33, 120), Long(70, 118) >>
WithFault(c, k, st) == IF st THEN [fault |-> k, stick |-> 1] @@ c ELSE [fault |-> k] @@ c
SFaultPre == << [op |-> "s.new", o |-> "s"] >>
SFaultPool(h) ==
  LET ins == {[op |-> "s.id", o |-> "s", w |-> FaultWords[i]] : i \in DOMAIN FaultWords} IN
  ins \cup UNION {{WithFault(c, k, st) : k \in 1..2, st \in BOOLEAN} : c \in {c \in ins : ~Known(h["s"], c.w)}}
SFaultEnd(h) ==
  LET K == SortedWords(DOMAIN h["s"].ids) N == Len(K) F == FaultWords IN
  [i \in DOMAIN F |-> [op |-> "s.has", o |-> "s", w |-> F[i]]]
  \o [i \in DOMAIN F |-> [op |-> "s.has", o |-> "s", w |-> SubSeq(F[i], 1, Len(F[i]) - 1)]]
  \o [i \in DOMAIN K |-> [op |-> "s.id", o |-> "s", w |-> K[i]]]
  \o [i \in DOMAIN F |-> [op |-> "s.id", o |-> "s", w |-> F[i]]]
  \o [i \in DOMAIN F |-> [op |-> "s.word", o |-> "s", id |-> i - 1]]
  \o << [op |-> "del", o |-> "s"] >>
IFaultPre == << [op |-> "i.new", o |-> "i"], [op |-> "e.new", o |-> "e"], [op |-> "q.new", o |-> "q"] >>
IFaultPool(h) ==
  LET ins == {[op |-> "i.ins", o |-> "i", w |-> FaultWords[i], id |-> i] : i \in DOMAIN FaultWords} IN
  ins \cup UNION {{WithFault(c, k, st) : k \in 1..2, st \in BOOLEAN} : c \in {c \in ins : c.w \notin DOMAIN h["i"].w}}
      \cup {[op |-> "i.find", o |-> "i", q |-> FaultWords[2], e |-> "e", max |-> 100, s |-> "q"]}
IFaultEnd(h) ==
  LET K == SortedWords(DOMAIN h["i"].w) F == FaultWords
      find(q) == << [op |-> "q.clear", o |-> "q"], [op |-> "i.find", o |-> "i", q |-> q, e |-> "e", max |-> 200, s |-> "q"] >> IN
  [i \in DOMAIN F |-> [op |-> "i.has", o |-> "i", w |-> F[i]]]
  \o FoldLeft(LAMBDA acc, w : acc \o find(w), <<>>, SubSeq(F, 1, 2))
  \o << [op |-> "i.stat", o |-> "i", ids |-> <<1, 2, 3, 4, 5, 6>>] >>
  \o [i \in DOMAIN F |-> [op |-> "i.ins", o |-> "i", w |-> F[i], id |-> i]]
  \o FoldLeft(LAMBDA acc, w : acc \o find(w), <<>>, SubSeq(F, 3, 3))
  \o << [op |-> "i.stat", o |-> "i", ids |-> <<1, 2, 3, 4, 5, 6>>], [op |-> "del", o |-> "i"] >>
MFaultPre ==
  MkDoc("d1", 1, <<Long(20, 120), abc>>, <<Long(32, 121)>>) \o MkDoc("d2", 2, <<Long(33, 121), abd>>, <<>>)
  \o MkDoc("d3", 3, <<abc>>, <<Long(40, 119), Long(41, 119)>>)
  \o MkCorpus("c1", <<"d1">>) \o MkCorpus("c2", <<"d2">>) \o MkCorpus("c3", <<"d3">>)
MFaultPool(h) ==
  IF ~R(h, "m", "matcher")
  THEN {[op |-> "m.new", o |-> "m"]} \cup {WithFault([op |-> "m.new", o |-> "m"], k, FALSE) : k \in 1..3}
  ELSE LET ins == {[op |-> "m.idx", o |-> "m", s |-> c] : c \in {"c1", "c2", "c3"}} IN
       ins \cup UNION {{WithFault(c, k, st) : k \in 1..8, st \in BOOLEAN} : c \in ins} \cup {Ask("m", <<abc>>)}
MFaultEnd(h) ==
  LET Q == << Ask("m", <<abc>>), Ask("m", <<Long(32, 120)>>), Ask("m", << Long(20, 120), Long(41, 121) >>) >> IN
  IF ~R(h, "m", "matcher") THEN << [op |-> "m.new", o |-> "m"], [op |-> "m.idx", o |-> "m", s |-> "c1"] >> \o Q \o << [op |-> "del", o |-> "m"] >>
  ELSE Q \o << [op |-> "m.idx", o |-> "m", s |-> "c1"], [op |-> "m.idx", o |-> "m", s |-> "c2"], [op |-> "m.idx", o |-> "m", s |-> "c3"] >>
         \o Q \o << [op |-> "del", o |-> "m"] >>
MayFault(c) == "fault" \in DOMAIN c

------------------------------------------------------------------------------
Pre == CASE PoolName = "sfault" -> SFaultPre [] PoolName = "ifault" -> IFaultPre [] PoolName = "mfault" -> MFaultPre [] OTHER -> CASE PoolName = "store" -> StorePre [] PoolName = "dict" -> DictPre [] PoolName = "err" -> ErrPre
         [] PoolName = "doc" -> DocPre [] PoolName = "match" -> MatchPre [] PoolName = "twin" -> TwinPre
         [] PoolName = "filter" -> FilterPre [] OTHER -> <<>>
Pool(h) == CASE PoolName = "word" -> WordPool(h) [] PoolName = "list" -> ListPool(h) [] PoolName = "store" -> StorePool(h)
             [] PoolName = "dict" -> DictPool(h) [] PoolName = "err" -> ErrPool(h) [] PoolName = "res" -> ResPool(h)
             [] PoolName = "doc" -> DocPool(h) [] PoolName = "match" -> MatchPool(h) [] PoolName = "twin" -> TwinPool(h)
             [] PoolName = "filter" -> FilterPool(h) [] PoolName = "sfault" -> SFaultPool(h)
             [] PoolName = "ifault" -> IFaultPool(h) [] PoolName = "mfault" -> MFaultPool(h)
Ok(h) == CASE PoolName = "word" -> WordOk(h) [] PoolName = "list" -> ListOk(h) [] PoolName = "dict" -> DictOk(h)
           [] PoolName = "res" -> ResOk(h) [] PoolName = "doc" -> DocOk(h) [] PoolName = "match" -> MatchOk(h)
           [] PoolName = "twin" -> TwinOk(h) [] PoolName = "ifault" -> (R(h, "q", "hits") => Len(h["q"].v) <= 4) [] OTHER -> TRUE
End(h) == CASE PoolName = "word" -> WordEnd(h) [] PoolName = "list" -> ListEnd(h) [] PoolName = "store" -> StoreEnd(h)
            [] PoolName = "dict" -> DictEnd(h) [] PoolName = "err" -> ErrEnd(h) [] PoolName = "res" -> ResEnd(h)
            [] PoolName = "doc" -> DocEnd(h) [] PoolName = "match" -> MatchEnd(h) [] PoolName = "twin" -> TwinEnd(h)
            [] PoolName = "filter" -> FilterEnd(h) [] PoolName = "sfault" -> SFaultEnd(h)
            [] PoolName = "ifault" -> IFaultEnd(h) [] PoolName = "mfault" -> MFaultEnd(h)

Reads == {"r.read", "m.match", "m.online", "i.find"}
Touch(p, c) ==
  LET old == IF c.o \in DOMAIN p THEN p[c.o] ELSE <<"", {}>>
      mine == IF MayFault(c) THEN <<c.op, old[2] \cup {<<"failed", Cardinality({x \in old[2] : x[1] = "failed"}) + 1, c.fault>>}>>
              ELSE IF c.op \in Reads THEN <<old[1], old[2] \cup {<<c.op>>}>> ELSE <<c.op, {x \in old[2] : x[1] = "failed"}>>
      p1 == (c.o :> mine) @@ p
  IN IF c.op \in {"r.one", "r.all", "r.copy", "w.copy", "w.set", "l.copy", "l.set", "d.copy", "d.set"} /\ c.s \in DOMAIN p /\ c.s # c.o
     THEN (c.s :> <<p[c.s][1], p[c.s][2] \cup {<<c.op>>}>>) @@ p1 ELSE p1
GInit == Init /\ hist = <<>> /\ prov = <<>>
GNext ==
  IF Len(hist) < Len(Pre)
  THEN /\ Step(Pre[Len(hist) + 1]) /\ hist' = Append(hist, Pre[Len(hist) + 1]) /\ prov' = prov
  ELSE /\ Len(hist) < Len(Pre) + Depth
       /\ \E c \in Pool(heap) :
            /\ IF MayFault(c) THEN UNCHANGED <<heap, skip>> ELSE Step(c)
            /\ Ok(heap')
            /\ hist' = Append(hist, c)
            /\ prov' = Touch(prov, c)
            /\ PrintT("GEN" \o ToJson(hist' \o End(heap')))
GSpec == GInit /\ [][GNext]_gvars
GView == IF Len(hist) < Len(Pre) THEN <<Len(hist)>> ELSE IF FineArg = "1" THEN <<heap, prov>> ELSE <<heap>>
=============================================================================
