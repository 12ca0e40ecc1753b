-------------------------------- MODULE Trace --------------------------------
(* Is a recorded execution a behaviour of Columbus?  One event per line.       *)
(* Two ways of deciding:                                                        *)
(*  - absolute: the event is a step of Columbus (all observations in focus);    *)
(*  - relational (C17 C18 C19 C21 C24 C25 C26): answers are a function of the   *)
(*    abstract state. `learn` remembers every answer by the state and question  *)
(*    that produced it; the same question asked in the same abstract state -    *)
(*    by another object, interface, thread or process - must get that answer.   *)
EXTENDS Columbus, Json, IOUtils

EnvFocus == IOEnv.FOCUS
EnvDirs == JsonDeserialize(IOEnv.DIRS)
Events == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, learn

(* ---- which properties a call that dies or refuses unexpectedly belongs to --- *)
Area(op) ==
  CASE op \in {"w.new", "w.let"} -> {"C01"}
    [] op \in {"w.text"} -> {"C01", "C02"}
    [] op \in {"w.utf8"} -> {"C04"}
    [] op \in {"w.empty", "w.copy", "w.move", "w.set", "w.mset", "w.join", "w.cmp", "w.eqt"} -> {"C02"}
    [] op \in {"l.split", "l.new", "l.copy", "l.move", "l.set", "l.mset", "l.add", "l.obs", "l.cmp", "l.drop"} -> {"C03"}
    [] op \in {"d.new", "d.copy", "d.set", "d.text", "d.words", "d.obs", "d.id", "d.get", "d.cnt", "d.n", "d.drop", "c.new", "c.add", "c.obs"} -> {"C19"}
    [] op \in {"s.new", "s.id", "s.has", "s.hasid", "s.word", "s.fam"} -> {"C05", "C22"}
    [] op \in {"i.new", "i.ins", "i.fam", "i.has", "i.stat"} -> {"C06", "C22"}
    [] op \in {"i.find"} -> {"C07", "C08", "C12", "C22"}
    [] op \in {"q.new", "q.clear", "q.obs"} -> {"C08"}
    [] op = "w.obs" -> {"C01", "C02"}
    [] op = "e.err" -> {"C09", "C10", "C11", "C26"}
    [] op = "e.ing" -> {"C09", "C10"}
    [] op \in {"e.set", "e.clr", "e.new", "e.val", "e.vals", "e.def"} -> {"C09", "C12", "C26"}
    [] op \in {"e.grp", "e.acc"} -> {"C10"}
    [] op = "e.std" -> {"C10", "C11"}
    [] op \in {"e.kbd", "e.pad"} -> {"C11"}
    [] op \in {"e.sub"} -> {"C12"}
    [] op \in {"x.new", "x.set", "x.get", "x.drop"} -> {"C14", "C26"}
    [] op = "p.obs" -> {"C13", "C16"}
    [] op \in {"f.new", "f.term", "f.sub", "f.obs", "p.new", "p.dyn", "p.nos"} -> {"C16"}
    [] op \in {"m.new", "m.idx"} -> {"C13", "C18", "C19", "C22"}
    [] op = "m.merge" -> {"C13", "C15"}
    [] op = "m.match" -> {"C13", "C14", "C16", "C17", "C18", "C22", "C26"}
    [] op \in {"m.online"} -> {"C20", "C17", "C18"}
    [] op \in {"r.new", "r.copy", "r.move", "r.set", "r.mset", "r.add", "r.all", "r.one", "r.obs", "r.read"} -> {"C15"}
    [] OTHER -> {}
AreaOf(c) == Area(c.op) \cup (IF Has(c, "via") /\ c.via = "c" THEN {"C21"} ELSE {})
                        \cup (IF Has(c, "via") /\ c.via = "py" THEN {"C24"} ELSE {})
                        \cup (IF c.op = "del" THEN {"C02", "C23"} ELSE {})
                        \cup (IF c.op = "dup" \/ Has(c, "cp") THEN {"C09", "C16", "C25", "C26"} ELSE {})

(* calls that the specification refuses in some states *)
Refusable == {"w.new", "w.let", "w.text", "w.utf8", "l.split", "dup", "d.text", "d.get", "s.word",
              "e.grp", "e.acc", "e.std", "m.match", "m.online", "r.one", "r.read"}

(* ---- relational part ------------------------------------------------------- *)
MatchKey(m) == <<m.post, m.ev, m.wt, m.vague, m.may>>
Sizes(m, f) == [k \in {k \in DOMAIN m.size : k[2] = f /\ m.size[k] > 0} |-> m.size[k]]
Value(o) == IF o \notin DOMAIN heap THEN <<"none", 0>>
            ELSE <<heap[o].t, IF heap[o].t = "matcher" THEN MatchKey(heap[o])
                              ELSE IF heap[o].t = "hits" THEN Bag(heap[o].v)
                              ELSE heap[o]>>
ArgsOf(c, F) == [f \in DOMAIN c \cap F |-> c[f]]
ArgFields == {"b", "ts", "l", "id", "f", "w", "q", "n", "i", "k", "v", "x", "y", "e", "g", "dir", "max",
              "ps", "ids", "fs", "a", "ab", "len", "from", "bs"}
Key(c) ==
  CASE c.op = "m.match" -> <<"m.match", MatchKey(heap[c.o]),
                             IF Query(c).ok THEN Range(Query(c).v) ELSE {<<0>>},
                             IF Has(c, "p") THEN heap[c.p] ELSE ParamsObj>>
    [] c.op = "m.online" -> <<"m.online", MatchKey(heap[c.o]), Sizes(heap[c.o], c.f),
                              c.f \in heap[c.o].names, c.q, c.f>>
    [] c.op = "i.find" -> <<"i.find", Value(c.o), Value(c.s), EvOf(c.e), c.q, c.max>>
    [] OTHER -> <<c.op, ArgsOf(c, ArgFields),
                  IF Has(c, "o") THEN Value(c.o) ELSE <<"none", 0>>, IF Has(c, "s") THEN Value(c.s) ELSE <<"none", 0>>,
                  IF Has(c, "s2") THEN Value(c.s2) ELSE <<"none", 0>> >>
Answer(c, f) == IF f \in {"ds", "base"} /\ c.op \in {"m.match", "m.online"} THEN Bag(c.r[f])
                ELSE IF f = "ms" THEN Bag(c.r[f]) ELSE c.r[f]
Queries == {"m.match", "m.online"}
Relates(c) ==
  \/ FOCUS \in {"C17", "C18", "C19", "C26"} /\ c.op \in Queries
  \/ /\ FOCUS \in {"C21", "C24", "C25"} /\ c.op \notin {"del", "reset", "z.res", "null"}
     \* how far a failed index call got is not determined
     /\ ~(c.op \in Queries /\ c.o \in DOMAIN heap /\ heap[c.o].vague)
LearnFields(c) == DOMAIN c.r \ {"threw", "gone", "fired", "oob", "coob", "same", "bad"}
Learn(c) ==
  IF c.op = "reset" THEN learn' = IF Has(c, "keep") THEN learn ELSE <<>>
  ELSE IF ~Relates(c) THEN UNCHANGED learn
  ELSE LET k == Key(c)
           old == IF k \in DOMAIN learn THEN learn[k] ELSE <<>>
       IN /\ \A f \in LearnFields(c) \cap DOMAIN old :
                \/ old[f] = Answer(c, f)
                \/ ~PrintT(<<"NOT ALLOWED: another answer was given before in this state", f, old[f]>>)
          /\ learn' = (k :> ([f \in LearnFields(c) |-> Answer(c, f)] @@ old)) @@ learn

(* ---- the trace --------------------------------------------------------------- *)
TInit == Init /\ l = 1 /\ learn = <<>> /\ TLCSet(2, 0)
Abandon == skip' = TRUE /\ UNCHANGED <<heap, learn>>
TNext ==
  /\ l <= Len(Events) /\ l' = l + 1
  /\ LET c == Events[l] IN
     IF skip /\ c.op # "reset" THEN UNCHANGED <<heap, skip, learn>> /\ TLCSet(2, TLCGet(2) + 1)
     ELSE IF c.op = "crash"            \* the process died in this call
     THEN ~InFocus(AreaOf(c.c) \cup {"ALL"}) /\ Abandon
     ELSE IF c.op = "race" THEN ~InFocus({"C25"}) /\ Abandon
     \* a look at an object whose creation was (rightly) refused
     ELSE IF Has(c, "probe") /\ c.o \notin DOMAIN heap THEN UNCHANGED <<heap, skip, learn>>
     ELSE IF Has(c.r, "threw") /\ InFocus({"C21"}) THEN FALSE
     ELSE IF Has(c.r, "fired") /\ c.r.fired THEN Faulted(c) /\ UNCHANGED learn
     ELSE IF Has(c.r, "ok") /\ ~c.r.ok /\ c.op \notin Refusable
     THEN ~InFocus(AreaOf(c)) /\ Abandon
     ELSE Learn(c) /\ Step(c)
TSpec == TInit /\ [][TNext]_<<heap, skip, l, learn>>

View == l
(* how many events were decided, and how many were passed over *)
Accepted ==
  /\ PrintT(<<"PASSED OVER", TLCGet(2)>>)
  /\ PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Events)>>)
  /\ TLCGet("stats").diameter - 1 = Len(Events)
=============================================================================
