------------------------------ MODULE Letters ------------------------------
(* Text: how bytes become words and how words become bytes.                 *)
(* A letter is a UTF-16 code unit (an integer); a word is a finite sequence *)
(* of letters; a text is a finite sequence of bytes, none of them 0 (the    *)
(* library takes zero-terminated strings).                                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, CaseTable

CONSTANT WIDE   \* TRUE: letters are whole code points (full_unicode build)

Whitespace == {32, 9, 10, 13}
IsHigh(l) == ~WIDE /\ l >= 55296 /\ l <= 56319
IsLow(l)  == ~WIDE /\ l >= 56320 /\ l <= 57343

(* ---- UTF-8 decoding: an automaton over bytes --------------------------- *)
(* n: continuation bytes still expected; lo..hi: range allowed for the next *)
(* one; cp: code point under construction; out: code points so far          *)
Start == [ok |-> TRUE, n |-> 0, lo |-> 128, hi |-> 191, cp |-> 0, out |-> <<>>]
Lead(s, n, lo, hi, cp) == [s EXCEPT !.n = n, !.lo = lo, !.hi = hi, !.cp = cp]
Fail(s) == [s EXCEPT !.ok = FALSE]

Utf8Step(s, b) ==
  IF ~s.ok THEN s
  ELSE IF s.n = 0 THEN
    IF b < 128 THEN [s EXCEPT !.out = Append(@, b)]
    ELSE IF b >= 194 /\ b <= 223 THEN Lead(s, 1, 128, 191, b - 192)
    ELSE IF b = 224 THEN Lead(s, 2, 160, 191, 0)
    ELSE IF b = 237 THEN Lead(s, 2, 128, 159, 13)
    ELSE IF b >= 225 /\ b <= 239 THEN Lead(s, 2, 128, 191, b - 224)
    ELSE IF b = 240 THEN Lead(s, 3, 144, 191, 0)
    ELSE IF b >= 241 /\ b <= 243 THEN Lead(s, 3, 128, 191, b - 240)
    ELSE IF b = 244 THEN Lead(s, 3, 128, 143, 4)
    ELSE Fail(s)
  ELSE IF b < s.lo \/ b > s.hi THEN Fail(s)
  ELSE LET cp == s.cp * 64 + (b - 128) IN
       IF s.n = 1 THEN [Lead(s, 0, 128, 191, 0) EXCEPT !.out = Append(s.out, cp)]
       ELSE Lead(s, s.n - 1, 128, 191, cp)

Decode(bytes) ==
  LET s == FoldLeft(Utf8Step, Start, bytes)
  IN  [ok |-> s.ok /\ s.n = 0, cps |-> s.out]

(* ---- code points and letters ------------------------------------------- *)
Units(cp) == IF WIDE \/ cp < 65536 THEN <<cp>>
             ELSE <<55296 + ((cp - 65536) \div 1024), 56320 + ((cp - 65536) % 1024)>>
RECURSIVE Flat(_, _, _)      \* ss[lo] \o ... \o ss[hi]
Flat(ss, lo, hi) == IF lo > hi THEN <<>> ELSE IF lo = hi THEN ss[lo]
                    ELSE LET m == (lo + hi) \div 2 IN Flat(ss, lo, m) \o Flat(ss, m + 1, hi)
FlatMap(f(_), s) == Flat([i \in DOMAIN s |-> f(s[i])], 1, Len(s))
Rep(s, n) == [i \in 1..(n * Len(s)) |-> s[((i - 1) % Len(s)) + 1]]     \* s, n times over
ToUnits(cps) == FlatMap(Units, cps)

EncodeCp(cp) ==
  IF cp < 128 THEN <<cp>>
  ELSE IF cp < 2048 THEN <<192 + (cp \div 64), 128 + (cp % 64)>>
  ELSE IF cp < 65536 THEN <<224 + (cp \div 4096), 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
  ELSE <<240 + (cp \div 262144), 128 + ((cp \div 4096) % 64),
         128 + ((cp \div 64) % 64), 128 + (cp % 64)>>

(* UTF-8 text of a (valid) letter sequence: surrogate pairs are one code point *)
ToUtf8(ls) ==
  Flat([i \in DOMAIN ls |->
          IF IsHigh(ls[i]) THEN <<>>
          ELSE IF IsLow(ls[i]) /\ i > 1 THEN EncodeCp(65536 + (ls[i-1] - 55296) * 1024 + (ls[i] - 56320))
          ELSE EncodeCp(ls[i])], 1, Len(ls))

(* ---- single-letter lower case ------------------------------------------- *)
Lower(l) ==
  IF l < 128 THEN (IF l >= 65 /\ l <= 90 THEN l + 32 ELSE l)
  ELSE IF l \in DOMAIN LowerMap THEN LowerMap[l] ELSE l
LowerAll(ls) == [i \in 1..Len(ls) |-> Lower(ls[i])]

(* ---- valid words -------------------------------------------------------- *)
Paired(ls) ==
  \A i \in 1..Len(ls) :
     /\ IsHigh(ls[i]) => i < Len(ls) /\ IsLow(ls[i+1])
     /\ IsLow(ls[i])  => i > 1 /\ IsHigh(ls[i-1])
ValidWord(ls) == /\ \A i \in 1..Len(ls) : ls[i] # 0 /\ ls[i] \notin Whitespace
                 /\ Paired(ls)

(* Word built from bytes / from a letter array *)
TextWord(bytes) ==
  LET d == Decode(bytes)
      ls == LowerAll(ToUnits(d.cps))
  IN  IF d.ok /\ ValidWord(ls) THEN [ok |-> TRUE, v |-> ls] ELSE [ok |-> FALSE, v |-> <<>>]
ArrayWord(ls) ==
  LET body == IF ls # <<>> /\ ls[Len(ls)] = 0 THEN Front(ls) ELSE ls
  IN  IF ValidWord(body) THEN [ok |-> TRUE, v |-> body] ELSE [ok |-> FALSE, v |-> <<>>]

(* ---- splitting ----------------------------------------------------------- *)
Runs(bytes) ==   \* the maximal runs of non-whitespace bytes, in order
  LET step(acc, b) ==
        IF b \in Whitespace
        THEN IF acc.cur = <<>> THEN acc ELSE [cur |-> <<>>, out |-> Append(acc.out, acc.cur)]
        ELSE [acc EXCEPT !.cur = Append(@, b)]
      s == FoldLeft(step, [cur |-> <<>>, out |-> <<>>], bytes)
  IN  IF s.cur = <<>> THEN s.out ELSE Append(s.out, s.cur)
Split(bytes) ==
  LET ws == [i \in 1..Len(Runs(bytes)) |-> TextWord(Runs(bytes)[i])]
  IN  IF \A i \in DOMAIN ws : ws[i].ok
      THEN [ok |-> TRUE, v |-> [i \in DOMAIN ws |-> ws[i].v]]
      ELSE [ok |-> FALSE, v |-> <<>>]

(* ---- long texts, as runs ---------------------------------------------------- *)
(* ts: pieces <<bytes, n>>, each n times over. A piece is whole characters (or      *)
(* malformed by itself); one that has white space ends with it.                     *)
Expand(ts) == FlatMap(LAMBDA t : Rep(t[1], t[2]), ts)
Blank(b) == \E i \in DOMAIN b : b[i] \in Whitespace
RunWord(ts) ==
  LET ws == [i \in DOMAIN ts |-> IF ts[i][2] = 0 THEN [ok |-> TRUE, v |-> <<>>] ELSE TextWord(ts[i][1])]
  IN  IF \A i \in DOMAIN ws : ws[i].ok
      THEN [ok |-> TRUE, v |-> Flat([i \in DOMAIN ts |-> Rep(ws[i].v, ts[i][2])], 1, Len(ts))]
      ELSE [ok |-> FALSE, v |-> <<>>]
RunSplit(ts) ==
  LET close(acc) == IF acc.cur = <<>> THEN acc ELSE [acc EXCEPT !.cur = <<>>, !.out = Append(@, acc.cur)]
      step(acc, t) ==
        IF t[2] = 0 \/ ~acc.ok THEN acc
        ELSE IF ~Blank(t[1])
        THEN LET w == TextWord(t[1]) IN
             IF w.ok THEN [acc EXCEPT !.cur = @ \o Rep(w.v, t[2])] ELSE [acc EXCEPT !.ok = FALSE]
        ELSE LET s == Split(t[1])
                 shut == close(acc)
                 first == IF t[1][1] \in Whitespace \/ acc.cur = <<>> THEN shut.out \o s.v
                          ELSE Append(acc.out, acc.cur \o s.v[1]) \o Tail(s.v)
             IN  IF s.ok THEN [ok |-> TRUE, cur |-> <<>>, out |-> first \o Rep(s.v, t[2] - 1)]
                 ELSE [acc EXCEPT !.ok = FALSE]
      end == close(FoldLeft(step, [ok |-> TRUE, cur |-> <<>>, out |-> <<>>], ts))
  IN  IF end.ok THEN [ok |-> TRUE, v |-> end.out] ELSE [ok |-> FALSE, v |-> <<>>]

(* ---- order ---------------------------------------------------------------- *)
WordLess(a, b) ==
  LET m == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
      D == {i \in 1..m : a[i] # b[i]}
  IN  IF D = {} THEN Len(a) < Len(b)
      ELSE LET i == CHOOSE i \in D : \A j \in D : i <= j IN a[i] < b[i]
SortedWords(S) == SetToSortSeq(S, WordLess)

(* ---- families of words (large dictionaries) -------------------------------- *)
(* word k (0-based) of the family over alphabet a (sequence of distinct letters) *)
(* with fixed length n: the n digits of k in base Len(a), last letter fastest    *)
RECURSIVE FamWord(_, _, _)
FamWord(a, n, k) == IF n = 0 THEN <<>>
                    ELSE Append(FamWord(a, n - 1, k \div Len(a)), a[(k % Len(a)) + 1])
DigitOf(a) == [l \in Range(a) |-> (CHOOSE i \in 1..Len(a) : a[i] = l) - 1]
FamIndex(dig, n, w) ==   \* inverse, dig = DigitOf(a); -1 if w is no member
  IF Len(w) # n \/ \E i \in 1..Len(w) : w[i] \notin DOMAIN dig THEN -1
  ELSE FoldLeft(LAMBDA acc, l : acc * Cardinality(DOMAIN dig) + dig[l], 0, w)
=============================================================================
