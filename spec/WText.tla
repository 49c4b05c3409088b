------------------------------- MODULE WText -------------------------------
(* Text as sequences of Unicode code points: the string primitives that the *)
(* Wizard language exposes (indexing, slicing, find, lower, ...).           *)
EXTENDS Integers, Sequences, FiniteSets

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Abs(n) == IF n < 0 THEN -n ELSE n

(* Floored division and remainder, as in Python (sign of the divisor).      *)
FloorDiv(a, b) ==
  LET q == Abs(a) \div Abs(b)
      exact == q * Abs(b) = Abs(a)
      same == (a >= 0) = (b > 0)
  IN IF same \/ a = 0 THEN q ELSE IF exact THEN -q ELSE -q - 1
FloorMod(a, b) == a - FloorDiv(a, b) * b

(* ---- letter case (ASCII and Latin-1, the alphabet used by the traces) ---- *)
LatinLower(c) ==
  IF (c >= 65 /\ c <= 90) \/ (c >= 192 /\ c <= 222 /\ c # 215) THEN c + 32 ELSE c

(* Case folding, also for Greek, Cyrillic, Latin Extended-A and ligatures.  *)
FoldCp(c) ==
  CASE c = 223 \/ c = 7838 -> <<115, 115>>               \* sharp s
    [] c = 181 -> <<956>>                                \* micro sign
    [] c = 383 -> <<115>>                                \* long s
    [] c = 304 -> <<105, 775>>                           \* I with dot
    [] c = 329 -> <<700, 110>>
    [] c = 376 -> <<255>>
    [] c = 962 -> <<963>>                                \* final sigma
    [] c = 8490 -> <<107>> [] c = 8491 -> <<229>>        \* Kelvin, Angstrom
    [] c = 64257 -> <<102, 105>> [] c = 64258 -> <<102, 108>>
    [] c \in (256..303) \cup (306..311) \cup (330..375) -> <<IF c % 2 = 0 THEN c + 1 ELSE c>>
    [] c \in (313..328) \cup (377..382) -> <<IF c % 2 = 1 THEN c + 1 ELSE c>>
    [] c \in 913..937 /\ c # 930 -> <<c + 32>>
    [] c \in 1040..1071 -> <<c + 32>>
    [] c \in 1024..1039 -> <<c + 80>>
    [] OTHER -> <<LatinLower(c)>>
RECURSIVE CaseFoldFrom(_, _)
CaseFoldFrom(t, i) == IF i > Len(t) THEN <<>> ELSE FoldCp(t[i]) \o CaseFoldFrom(t, i + 1)
CaseFold(t) == CaseFoldFrom(t, 1)
(* Lower case: as folding, but letters that are lower case stay as they are. *)
LowerCp(c) ==
  IF c \in {181, 223, 329, 383, 962, 64257, 64258} THEN c ELSE IF c = 7838 THEN 223 ELSE FoldCp(c)[1]
Lower(t) == [i \in 1..Len(t) |-> LowerCp(t[i])]
SameName(a, b) == CaseFold(a) = CaseFold(b)

(* ---- ordering ---- *)
TextLt(a, b) ==
  \/ \E k \in 1..Min2(Len(a), Len(b)) :
        a[k] < b[k] /\ \A j \in 1..(k - 1) : a[j] = b[j]
  \/ Len(a) < Len(b) /\ \A j \in 1..Len(a) : a[j] = b[j]
TextLe(a, b) == a = b \/ TextLt(a, b)

(* ---- searching ---- *)
PrefixAt(t, sub, p) ==       \* sub occurs in t at (zero-based) position p
  p >= 0 /\ p + Len(sub) <= Len(t) /\ \A j \in 1..Len(sub) : t[p + j] = sub[j]
StartsWith(t, p) == PrefixAt(t, p, 0)
EndsWith(t, p) == PrefixAt(t, p, Len(t) - Len(p))

ClipIndex(i, n) == IF i < 0 THEN Max2(i + n, 0) ELSE i
(* All positions of sub in t[start:end], find() is the least, rfind() the greatest. *)
Positions(t, sub, start, end) ==
  LET s == ClipIndex(start, Len(t))
      e == Min2(ClipIndex(end, Len(t)), Len(t))
  IN IF s > e THEN {} ELSE {p \in s..(e - Len(sub)) : PrefixAt(t, sub, p)}
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
FindIn(t, sub, start, end) ==
  LET P == Positions(t, sub, start, end) IN IF P = {} THEN -1 ELSE SetMin(P)
RFindIn(t, sub, start, end) ==
  LET P == Positions(t, sub, start, end) IN IF P = {} THEN -1 ELSE SetMax(P)

(* ---- slicing: each bound is <<>> (omitted) or <<n>> ---- *)
SliceText(t, os, oe, step) ==
  LET n == Len(t)
      lo == IF step > 0 THEN 0 ELSE -1
      hi == IF step > 0 THEN n ELSE n - 1
      Bound(o, dflt) ==
        IF o = <<>> THEN dflt
        ELSE IF o[1] < 0 THEN Max2(o[1] + n, lo) ELSE Min2(o[1], hi)
      s == Bound(os, IF step > 0 THEN lo ELSE hi)
      e == Bound(oe, IF step > 0 THEN hi ELSE lo)
      cnt == IF step > 0
             THEN (IF s < e THEN (e - s - 1) \div step + 1 ELSE 0)
             ELSE (IF e < s THEN (s - e - 1) \div (-step) + 1 ELSE 0)
  IN [i \in 1..cnt |-> t[s + (i - 1) * step + 1]]

(* ---- numbers as text ---- *)
RECURSIVE DigitsOf(_)
DigitsOf(n) == IF n < 10 THEN <<48 + n>> ELSE Append(DigitsOf(n \div 10), 48 + (n % 10))
IntToText(n) == IF n < 0 THEN <<45>> \o DigitsOf(-n) ELSE DigitsOf(n)

RECURSIVE FracDigits(_, _)
FracDigits(r, d) == IF r = 0 THEN <<>> ELSE <<48 + ((r * 10) \div d)>> \o FracDigits((r * 10) % d, d)
FloatToText(num, den) ==
  LET a == Abs(num)
      f == FracDigits(a % den, den)
  IN (IF num < 0 THEN <<45>> ELSE <<>>) \o DigitsOf(a \div den) \o <<46>>
     \o (IF f = <<>> THEN <<48>> ELSE f)

IsSpace(c) == c \in {9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 133, 160}
IsDigit(c) == c >= 48 /\ c <= 57
RECURSIVE LStrip(_)
LStrip(t) == IF t # <<>> /\ IsSpace(t[1]) THEN LStrip(Tail(t)) ELSE t
RECURSIVE RStrip(_)
RStrip(t) == IF t # <<>> /\ IsSpace(t[Len(t)]) THEN RStrip(SubSeq(t, 1, Len(t) - 1)) ELSE t
Strip(t) == RStrip(LStrip(t))
AllDigits(t) == \A i \in 1..Len(t) : IsDigit(t[i])
RECURSIVE DigitsValue(_)
DigitsValue(t) == IF t = <<>> THEN 0 ELSE 10 * DigitsValue(SubSeq(t, 1, Len(t) - 1)) + (t[Len(t)] - 48)

(* File name at the end of a path. *)
BaseName(t) ==
  LET S == {i \in 1..Len(t) : t[i] = 47}
  IN IF S = {} THEN t ELSE SubSeq(t, SetMax(S) + 1, Len(t))
=============================================================================
