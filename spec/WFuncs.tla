------------------------------- MODULE WFuncs -------------------------------
(* The built-in functions of the language (also callable as methods).       *)
EXTENDS WValues

BasicFns == {"str", "int", "float", "len", "lower", "startswith", "endswith",
             "find", "rfind"}
MinArgs(f) == IF f \in {"find", "rfind"} THEN 2 ELSE 1
MaxArgs(f) == IF f \in {"find", "rfind"} THEN 4
              ELSE IF f \in {"startswith", "endswith"} THEN 1000 ELSE 1

PlainName(t) == \A i \in 1..Len(t) : t[i] \in 32..126 /\ t[i] \notin {39, 92}

RECURSIVE JoinNames(_, _)
JoinNames(pkgs, i) ==
  IF i > Len(pkgs) THEN <<>>
  ELSE (IF i = 1 THEN <<>> ELSE <<44, 32>>) \o <<39>> \o pkgs[i].name \o <<39>> \o JoinNames(pkgs, i + 1)

StrV(v, pkgs) ==
  CASE IsBool(v) -> VText(IF v[2] = 1 THEN <<84, 114, 117, 101>> ELSE <<70, 97, 108, 115, 101>>)
    [] IsIntOnly(v) -> VText(IntToText(v[2]))
    [] IsFloat(v) -> IF v[3] > 64 \/ Abs(v[2]) > 10000000 THEN OutOfScope ELSE VText(FloatToText(v[2], v[3]))
    [] IsText(v) -> v
    [] IsVoid(v) -> OutOfScope
    [] IsSubPkg(v) -> VText(pkgs[v[2]].name)
    [] IsSubPkgs(v) -> IF \A i \in 1..Len(pkgs) : PlainName(pkgs[i].name)
                       THEN VText(<<91>> \o JoinNames(pkgs, 1) \o <<93>>) ELSE OutOfScope

ParseInt(s) ==
  LET t == Strip(s)
      neg == t # <<>> /\ t[1] = 45
      d == IF t # <<>> /\ t[1] \in {43, 45} THEN Tail(t) ELSE t
  IN IF \E i \in 1..Len(t) : t[i] = 95 \/ t[i] > 127 THEN OutOfScope
     ELSE IF d = <<>> \/ ~AllDigits(d) THEN ValueErr
     ELSE IF Len(d) > 9 THEN OutOfScope
     ELSE VInt(IF neg THEN -DigitsValue(d) ELSE DigitsValue(d))

RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)

ParseFloat(s) ==
  LET t == Strip(s)
      neg == t # <<>> /\ t[1] = 45
      d == IF t # <<>> /\ t[1] \in {43, 45} THEN Tail(t) ELSE t
      dots == {i \in 1..Len(d) : d[i] = 46}
      p == IF dots = {} THEN Len(d) + 1 ELSE SetMin(dots)
      ip == SubSeq(d, 1, p - 1)
      fp == IF p > Len(d) THEN <<>> ELSE SubSeq(d, p + 1, Len(d))
      num == DigitsValue(ip) * Pow10(Len(fp)) + DigitsValue(fp)
      q == Quotient(num, Pow10(Len(fp)))
  IN IF \E i \in 1..Len(t) : t[i] \in {95, 69, 73, 78, 101, 105, 110} \/ t[i] > 127 THEN OutOfScope
     ELSE IF Cardinality(dots) > 1 \/ ~AllDigits(ip) \/ ~AllDigits(fp) \/ ip \o fp = <<>> THEN ValueErr
     ELSE IF Len(ip) + Len(fp) > 8 THEN OutOfScope
     ELSE IF Failed(q) THEN q
     ELSE IF neg THEN (IF q[2] = 0 THEN OutOfScope ELSE <<2, -q[2], q[3]>>) ELSE q

IntV(v) ==
  CASE IsInt(v) -> VInt(v[2])
    [] IsFloat(v) -> VInt(IF v[2] < 0 THEN -((-v[2]) \div v[3]) ELSE v[2] \div v[3])
    [] IsText(v) -> ParseInt(TextOf(v))
    [] OTHER -> VInt(0)

FloatV(v) ==
  CASE IsInt(v) -> <<2, v[2], 1>>
    [] IsFloat(v) -> v
    [] IsText(v) -> ParseFloat(TextOf(v))
    [] OTHER -> <<2, 0, 1>>

FindV(f, vs) ==
  LET start == IF Len(vs) >= 3 THEN vs[3] ELSE VInt(0)
      end == IF Len(vs) >= 4 THEN vs[4] ELSE VInt(-1)
  IN IF ~IsText(vs[1]) \/ ~IsText(vs[2]) \/ ~IsInt(start) \/ ~IsInt(end) THEN VInt(-1)
     ELSE LET t == TextOf(vs[1]) u == TextOf(vs[2])
              e == IF IntOf(end) = -1 THEN Len(t) ELSE IntOf(end)
          IN VInt(IF f = "find" THEN FindIn(t, u, IntOf(start), e) ELSE RFindIn(t, u, IntOf(start), e))

Basic(f, vs, pkgs) ==
  IF Len(vs) < MinArgs(f) \/ Len(vs) > MaxArgs(f) THEN TypeErr
  ELSE CASE f = "str" -> StrV(vs[1], pkgs)
         [] f = "int" -> IntV(vs[1])
         [] f = "float" -> FloatV(vs[1])
         [] f = "len" -> VInt(IF IsText(vs[1]) THEN Len(vs[1]) - 1 ELSE 0)
         [] f = "lower" -> IF IsText(vs[1]) THEN VText(Lower(TextOf(vs[1]))) ELSE vs[1]
         [] f \in {"startswith", "endswith"} ->
              VBool(IsText(vs[1]) /\ \E i \in 2..Len(vs) : IsText(vs[i]) /\
                     IF f = "startswith" THEN StartsWith(TextOf(vs[1]), TextOf(vs[i]))
                     ELSE EndsWith(TextOf(vs[1]), TextOf(vs[i])))
         [] f \in {"find", "rfind"} -> FindV(f, vs)

(* Methods: every basic function on strings, only str() on numbers.         *)
HasMethod(v, f) == (IsText(v) /\ f \in BasicFns) \/ (IsNum(v) /\ f = "str")
=============================================================================
