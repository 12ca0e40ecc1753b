"""Writes spec/CaseTable.tla: the single-character lower-case mapping of the Unicode
character database as Python's unicodedata has it (independent of the ICU the library uses)."""
import os
m = {}
for c in range(0x110000):
    if 0xd800 <= c <= 0xdfff:
        continue
    x = chr(c).lower()
    if c == 0x130:
        x = 'i'          # the one letter whose full mapping is longer than one character
    if len(x) == 1 and ord(x) != c:
        m[c] = ord(x)
ranges = []              # lo, hi, step, delta
for c in sorted(m):
    d = m[c] - c
    if ranges:
        lo, hi, st, dl = ranges[-1]
        if dl == d and (c - hi == st or (lo == hi and c - hi in (1, 2))):
            ranges[-1] = (lo, c, c - hi, dl)
            continue
    ranges.append((c, c, 1, d))
chk = {c: c + d for lo, hi, st, d in ranges for c in range(lo, hi + 1, st)}
assert chk == m
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'CaseTable.tla')
rows = ['<<%d, %d, %d, %d>>' % r for r in ranges]
lines = ['  ' + ', '.join(rows[i:i + 5]) for i in range(0, len(rows), 5)]
open(out, 'w').write('''----------------------------- MODULE CaseTable -----------------------------
(* Single-character lower case of Unicode: code points lo, lo+step, ..., hi   *)
(* map to themselves plus delta. Written by tools/casetable.py.               *)
EXTENDS Integers, Sequences
CaseRanges == <<
%s >>
(* <<lo, hi, step, delta>> *)
LowerMap ==
  [c \\in UNION {{r[1] + r[3] * k : k \\in 0..((r[2] - r[1]) \\div r[3])} :
                r \\in {CaseRanges[i] : i \\in DOMAIN CaseRanges}} |->
     c + (LET r == CHOOSE r \\in {CaseRanges[i] : i \\in DOMAIN CaseRanges} :
                      c >= r[1] /\\ c <= r[2] /\\ (c - r[1]) %% r[3] = 0
          IN r[4])]
=============================================================================
''' % ',\n'.join(lines))
print(len(ranges), len(m))
