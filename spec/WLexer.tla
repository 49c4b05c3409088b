------------------------------- MODULE WLexer -------------------------------
(* From the characters of a script to its tokens: comments and line          *)
(* continuations vanish, string literals are decoded, numbers evaluated.     *)
(* Token: [t: kind ("id", "int", "dec", "str", "op", "eof"), s: symbol or     *)
(* word as a string ("?" if the word is none of the given ones), c: its      *)
(* characters, v: value of a literal, l: line].                              *)
EXTENDS WFuncs
LOCAL SX == INSTANCE SequencesExt

Quote1 == 39
Quote2 == 34
Backslash == 92
NL == 10
CR == 13
IsBlank(c) == c \in {9, 10, 11, 12, 13, 32}
IsLetter(c) == c \in 65..90 \/ c \in 97..122 \/ c = 95
IsWordCp(c) == IsLetter(c) \/ IsDigit(c)
HexDigit(c) == IF IsDigit(c) THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE c - 55

(* ------------------------------ literals ------------------------------- *)
RECURSIVE HexValue(_)
HexValue(t) == IF t = <<>> THEN 0 ELSE 16 * HexValue(SubSeq(t, 1, Len(t) - 1)) + HexDigit(t[Len(t)])
RECURSIVE OctValue(_)
OctValue(t) == IF t = <<>> THEN 0 ELSE 8 * OctValue(SubSeq(t, 1, Len(t) - 1)) + (t[Len(t)] - 48)
IsOct(c) == c \in 48..55
OctLen(t, i) ==       \* length of the octal digits at i, at most three
  IF i + 1 <= Len(t) /\ IsOct(t[i + 1]) THEN (IF i + 2 <= Len(t) /\ IsOct(t[i + 2]) THEN 3 ELSE 2) ELSE 1

Simple(c) ==          \* the character of an escape of a single letter
  CASE c = 97 -> 7 [] c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9
    [] c = Backslash -> Backslash [] OTHER -> -1
HexLen(c) == CASE c = 120 -> 2 [] c = 117 -> 4 [] c = 85 -> 8 [] OTHER -> 0

(* What the characters between the quotes denote, from position i on.       *)
RECURSIVE Denote(_, _)
Denote(t, i) ==
  IF i > Len(t) THEN <<>>
  ELSE IF t[i] # Backslash \/ i = Len(t) THEN <<t[i]>> \o Denote(t, i + 1)
  ELSE LET c == t[i + 1]
       IN CASE Simple(c) # -1 -> <<Simple(c)>> \o Denote(t, i + 2)
            [] HexLen(c) # 0 ->
                 <<HexValue(SubSeq(t, i + 2, i + 1 + HexLen(c)))>> \o Denote(t, i + 2 + HexLen(c))
            [] IsOct(c) ->
                 LET n == OctLen(t, i + 1)
                 IN <<OctValue(SubSeq(t, i + 1, i + n))>> \o Denote(t, i + 1 + n)
            [] OTHER -> <<c>> \o Denote(t, i + 2)

RECURSIVE Pow5(_)
Pow5(n) == IF n = 0 THEN 1 ELSE 5 * Pow5(n - 1)
RECURSIVE TrimZeros(_)
TrimZeros(t) == IF t # <<>> /\ t[Len(t)] = 48 THEN TrimZeros(SubSeq(t, 1, Len(t) - 1)) ELSE t
(* Only decimals that are dyadic fractions are within the model: f digits   *)
(* after the point make d / 10^f, which is (d / 5^f) / 2^f.                  *)
DecValue(whole, frac0) ==
  LET frac == TrimZeros(frac0)
      f == Len(frac)
      d == DigitsValue(whole) * Pow10(f) + DigitsValue(frac)
  IN IF f > 5 \/ Len(whole) > 5 THEN OutOfScope
     ELSE IF d % Pow5(f) # 0 THEN OutOfScope
     ELSE MkFloat(d \div Pow5(f), 2 ^ f)
IntValue(t) == IF Len(t) > 9 THEN OutOfScope ELSE VInt(DigitsValue(t))

(* ------------------------------- tokens -------------------------------- *)
RECURSIVE WordEnd(_, _)
WordEnd(s, i) == IF i <= Len(s) /\ IsWordCp(s[i]) THEN WordEnd(s, i + 1) ELSE i - 1
RECURSIVE DigitsEnd(_, _)
DigitsEnd(s, i) == IF i <= Len(s) /\ IsDigit(s[i]) THEN DigitsEnd(s, i + 1) ELSE i - 1
RECURSIVE StringEnd(_, _, _)       \* position of the closing quote q
StringEnd(s, i, q) ==
  IF i > Len(s) THEN 0 ELSE IF s[i] = Backslash THEN StringEnd(s, i + 2, q) ELSE IF s[i] = q THEN i ELSE StringEnd(s, i + 1, q)
RECURSIVE LineEnd(_, _)            \* first line break at or after i
LineEnd(s, i) == IF i > Len(s) \/ s[i] \in {NL, CR} THEN i ELSE LineEnd(s, i + 1)
RECURSIVE BlanksEnd(_, _)
BlanksEnd(s, i) == IF i <= Len(s) /\ s[i] \in {9, 32} THEN BlanksEnd(s, i + 1) ELSE i
Lines(s, i, k) == Cardinality({n \in i..k : s[n] = NL})

(* Skip blanks, comments and continuations from i on: [i, l].               *)
RECURSIVE Skip(_, _, _)
Skip(s, i, l) ==
  IF i > Len(s) THEN [i |-> i, l |-> l]
  ELSE IF s[i] = NL THEN Skip(s, i + 1, l + 1)
  ELSE IF IsBlank(s[i]) THEN Skip(s, i + 1, l)
  ELSE IF s[i] = 59 THEN Skip(s, LineEnd(s, i), l)
  ELSE IF s[i] = Backslash THEN
    LET e == BlanksEnd(s, i + 1)
    IN IF e <= Len(s) /\ s[e] = NL THEN Skip(s, e + 1, l + 1)
       ELSE IF e + 1 <= Len(s) /\ s[e] = CR /\ s[e + 1] = NL THEN Skip(s, e + 2, l + 1)
       ELSE [i |-> i, l |-> l]
  ELSE [i |-> i, l |-> l]

Op2(a, b) ==
  CASE b = 61 -> (CASE a = 61 -> "==" [] a = 33 -> "!=" [] a = 60 -> "<=" [] a = 62 -> ">=" [] a = 43 -> "+=" [] a = 45 -> "-="
                    [] a = 42 -> "*=" [] a = 47 -> "/=" [] a = 37 -> "%=" [] a = 94 -> "^=" [] OTHER -> "")
    [] a = 43 /\ b = 43 -> "++"
    [] a = 45 /\ b = 45 -> "--"
    [] OTHER -> ""
Op1(a) ==
  CASE a = 61 -> "=" [] a = 60 -> "<" [] a = 62 -> ">" [] a = 43 -> "+" [] a = 45 -> "-" [] a = 42 -> "*" [] a = 47 -> "/"
    [] a = 37 -> "%" [] a = 94 -> "^" [] a = 33 -> "!" [] a = 124 -> "|" [] a = 38 -> "&" [] a = 40 -> "(" [] a = 41 -> ")"
    [] a = 91 -> "[" [] a = 93 -> "]" [] a = 44 -> "," [] a = 46 -> "." [] a = 58 -> ":" [] OTHER -> "?"

(* words[n]: the words of length n that mean something.                     *)
WordOf(words, c) ==
  IF Len(c) > Len(words) THEN "?"
  ELSE LET w == words[Len(c)]
           N == {n \in 1..Len(w) : w[n].t = c}
       IN IF N = {} THEN "?" ELSE w[CHOOSE n \in N : TRUE].n

Tok(t, s, c, v, l) == [t |-> t, s |-> s, c |-> c, v |-> v, l |-> l]

(* The tokens are found one after the other: a step takes the next one. It   *)
(* is folded over the characters because there are at most as many tokens.   *)
LexStep(s, words, q) ==
  IF q.i > Len(s) THEN q
  ELSE LET k == Skip(s, q.i, q.l)
           i == k.i
           l == k.l
           To(j, t) == [i |-> j + 1, l |-> l + Lines(s, i, j), ts |-> Append(q.ts, t)]
       IN IF i > Len(s) THEN [q EXCEPT !.i = i, !.l = l]
          ELSE IF s[i] \in {Quote1, Quote2} THEN
            LET e == StringEnd(s, i + 1, s[i])
            IN IF e = 0 THEN [q EXCEPT !.i = Len(s) + 1, !.l = l, !.ts = Append(@, Tok("op", "?", <<>>, Void, l))]
               ELSE To(e, Tok("str", "", <<>>, VText(Denote(SubSeq(s, i + 1, e - 1), 1)), l))
          ELSE IF IsDigit(s[i]) THEN
            LET e == DigitsEnd(s, i)
                f == DigitsEnd(s, e + 2)
            IN IF e + 2 <= Len(s) /\ s[e + 1] = 46 /\ IsDigit(s[e + 2])
               THEN To(f, Tok("dec", "", <<>>, DecValue(SubSeq(s, i, e), SubSeq(s, e + 2, f)), l))
               ELSE To(e, Tok("int", "", <<>>, IntValue(SubSeq(s, i, e)), l))
          ELSE IF IsLetter(s[i]) THEN
            LET e == WordEnd(s, i)
                c == SubSeq(s, i, e)
            IN To(e, Tok("id", WordOf(words, c), c, Void, l))
          ELSE IF i < Len(s) /\ Op2(s[i], s[i + 1]) # "" THEN To(i + 1, Tok("op", Op2(s[i], s[i + 1]), <<>>, Void, l))
          ELSE To(i, Tok("op", Op1(s[i]), <<>>, Void, l))

Lex(s, words) ==
  LET Step(q, c) == LexStep(s, words, q)
      r == SX!FoldLeft(Step, [i |-> 1, l |-> 1, ts |-> <<>>], s)
  IN Append(r.ts, Tok("eof", "", <<>>, Void, r.l))
=============================================================================
