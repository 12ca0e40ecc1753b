------------------------------- MODULE MC_Text -------------------------------
(* The text layer of Letters against the definitions it stands for:            *)
(*  - the decoding automaton accepts exactly concatenations of UTF-8 encodings *)
(*    of Unicode scalar values, and inverts them;                              *)
(*  - folding a letter twice is folding it once, and never makes a letter that *)
(*    may not be in a word;                                                    *)
(*  - text read into a word and written out again reads as the same word;      *)
(*  - splitting is cutting at white space;  - the order of words is total.     *)
EXTENDS Letters, TLC

CONSTANTS Mode, MaxBytes, Stride, BUG
VARIABLES x
Init == CASE Mode = "bytes" -> x = <<>>
          [] Mode = "points" -> x \in {cp \in 1..1114111 : cp % Stride = 0 \/ (cp % 64 \in {0, 63} /\ cp % (64 * Stride) < 128)
                                           \/ cp \in {1, 127, 128, 2047, 2048, 55295, 55296, 56319, 56320, 57343, 57344, 65535, 65536, 1114111}
                                           \/ (cp < 66000 /\ Stride < 50)}
          [] Mode = "words" -> x = <<>>
          [] Mode = "split" -> x = <<>>
          [] Mode = "runs" -> x = <<>>
Pieces == {<<97>>, <<66, 195, 137>>, <<255>>, <<32>>, <<97, 32, 98, 10>>, <<10, 65, 32>>, <<97, 255, 32>>}
EdgeBytes == {1, 32, 65, 97, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 225, 236, 237, 238, 239, 240, 241, 243, 244, 245, 255}
Next == CASE Mode = "bytes" -> Len(x) < MaxBytes /\ \E b \in EdgeBytes : x' = Append(x, b)
          [] Mode = "split" -> Len(x) < MaxBytes /\ \E b \in {32, 10, 65, 98, 195, 137} : x' = Append(x, b)
          [] Mode = "runs" -> Len(x) < MaxBytes /\ \E p \in Pieces, n \in 0..3 : x' = Append(x, <<p, n>>)
          [] OTHER -> FALSE /\ x' = x
Spec == Init /\ [][Next]_x

Scalar(cp) == cp >= 0 /\ cp <= 1114111 /\ ~(cp >= 55296 /\ cp <= 57343)
Encode(cps) == FoldLeft(LAMBDA acc, cp : acc \o EncodeCp(cp), <<>>, cps)
Dec(b) == IF BUG = "overlong" THEN
            LET r == FoldLeft(LAMBDA s, y : IF s.ok /\ s.n = 0 /\ y = 224 THEN Lead(s, 2, 128, 191, 0) ELSE Utf8Step(s, y), Start, b)
            IN [ok |-> r.ok /\ r.n = 0, cps |-> r.out]
          ELSE Decode(b)
(* what is accepted decodes to scalar values whose encoding it is *)
Sound == Mode = "bytes" => LET d == Dec(x) IN d.ok => Encode(d.cps) = x /\ \A i \in DOMAIN d.cps : Scalar(d.cps[i])
(* every prefix of an accepted text that ends between characters is accepted, and a proper cut inside is not *)
Cuts == Mode = "bytes" => LET d == Dec(x) IN
          d.ok => \A k \in 1..Len(x) : Dec(SubSeq(x, 1, k)).ok <=> (k = Len(x) \/ (x[k + 1] < 128 \/ x[k + 1] >= 192))
(* every scalar value is accepted, alone and after another; surrogates are not *)
Complete == Mode = "points" => LET d == Dec(EncodeCp(x)) e == Dec(<<97>> \o EncodeCp(x) \o EncodeCp(x)) IN
          IF Scalar(x) THEN d.ok /\ d.cps = <<x>> /\ e.ok /\ e.cps = <<97, x, x>> ELSE ~d.ok /\ ~e.ok
FoldOnce == Mode = "points" /\ x < 65536 =>
          /\ Lower(Lower(x)) = Lower(x) /\ Lower(x) > 0 /\ Lower(x) < 65536
          /\ (Lower(x) \notin Whitespace \/ x \in Whitespace)
          /\ IsHigh(Lower(x)) = IsHigh(x) /\ IsLow(Lower(x)) = IsLow(x)
(* word from text, to text, to word *)
RoundTrip ==
  /\ Mode = "points" => LET w == TextWord(EncodeCp(x)) IN
        w.ok => ValidWord(w.v) /\ TextWord(ToUtf8(w.v)) = w
  /\ Mode = "bytes" => LET w == TextWord(x) IN
        w.ok => ValidWord(w.v) /\ TextWord(ToUtf8(w.v)) = w /\ Len(ToUtf8(w.v)) <= 3 * Len(w.v)
(* a letter array that is a valid word survives being written and read, but for its case *)
ArrayTrip == Mode = "points" /\ x < 65536 /\ ~IsHigh(x) /\ ~IsLow(x) =>
        LET w == ArrayWord(<<x, 97>>) IN
        /\ w.ok <=> x \notin Whitespace
        /\ (w.ok => TextWord(ToUtf8(w.v)) = [ok |-> TRUE, v |-> LowerAll(w.v)])

(* splitting: joined with one blank, the pieces split the same; pieces hold no blank *)
Joined(rs) == FoldLeft(LAMBDA acc, r : IF acc = <<>> THEN r ELSE acc \o <<32>> \o r, <<>>, rs)
Keep(b) == SelectSeq(b, LAMBDA y : y \notin Whitespace)
SplitRight == Mode = "split" =>
  LET rs == Runs(x) s == Split(x) IN
  /\ \A i \in DOMAIN rs : rs[i] # <<>> /\ \A k \in DOMAIN rs[i] : rs[i][k] \notin Whitespace
  /\ Runs(Joined(rs)) = rs
  /\ FlattenSeq(rs) = Keep(x)
  /\ Len(rs) = Cardinality({i \in DOMAIN x : x[i] \notin Whitespace /\ (i = 1 \/ x[i-1] \in Whitespace)})
  /\ s.ok => /\ Len(s.v) = Len(rs) /\ \A i \in DOMAIN rs : s.v[i] = TextWord(rs[i]).v
             /\ Split(Joined([i \in DOMAIN s.v |-> ToUtf8(s.v[i])])) = s
  /\ ~s.ok => \E i \in DOMAIN rs : ~TextWord(rs[i]).ok

(* long texts given as runs mean the texts they stand for *)
RunsRight == Mode = "runs" =>
  /\ RunSplit(x) = Split(Expand(x))
  /\ RunWord(x) = TextWord(Expand(x))

(* the order of words *)
SomeWords == UNION {[1..k -> {1, 2, 609}] : k \in 0..3}
TotalOrder == Mode = "words" =>
  /\ \A u, v \in SomeWords : (IF u = v THEN 1 ELSE 0) + (IF WordLess(u, v) THEN 1 ELSE 0) + (IF WordLess(v, u) THEN 1 ELSE 0) = 1
  /\ \A u, v, w \in SomeWords : WordLess(u, v) /\ WordLess(v, w) => WordLess(u, w)
  /\ \A u, v \in SomeWords : v # <<>> => WordLess(u, u \o v)
  /\ LET s == SortedWords(SomeWords) IN \A i \in 1..(Len(s) - 1) : WordLess(s[i], s[i+1])
Families == Mode = "words" =>
  \A a \in {<<1, 2>>, <<2, 1, 3>>}, n \in 1..3 : \A k \in 0..(FoldLeft(LAMBDA acc, i : acc * Len(a), 1, [i \in 1..n |-> i]) - 1) :
     FamIndex(DigitOf(a), n, FamWord(a, n, k)) = k
=============================================================================
