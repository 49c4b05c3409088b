----------------------------- MODULE WBigTable ------------------------------
(* Numbers of any size recorded from the implementation. A value is           *)
(*   [k |-> "i", m |-> integer]   [k |-> "f", m |-> integer, e |-> exponent]  *)
(*   [k |-> "b", b |-> 0 or 1]    [k |-> "s", t |-> text]                     *)
(* and a row an operation, its operands, the quotient that the harness         *)
(* proposes for a remainder, and the outcome.                                 *)
EXTENDS WBig, TLC, Json, IOUtils

Table == JsonDeserialize(IOEnv.WIZ_JOBS)
Chunk == 16

VARIABLE k
Row == Table.rows[k]

IsI(v) == v.k \in {"i", "b"}
IsF(v) == v.k = "f"
ZOf(v) == IF v.k = "b" THEN Z(1, IF v.b = 1 THEN One ELSE <<>>) ELSE Z(v.m.s, v.m.m)
DOf(v) == [m |-> Z(v.m.s, v.m.m), e |-> v.e]
QOf(v) == IF IsI(v) THEN QInt(ZOf(v)) ELSE QDouble(DOf(v))

IsInt(o, z) == o.k = "i" /\ ZOf(o) = z
IsFlt(o, q) == o.k = "f" /\ Nearest(q, DOf(o))
IsBool(o, b) == o.k = "b" /\ o.b = (IF b THEN 1 ELSE 0)
IsStr(o, t) == o.k = "s" /\ o.t = t

(* x mod y: the rational x - w * y for the integer w that puts it between     *)
(* zero and y.                                                                *)
Remainder(x, y, w) == QSub(x, QMul(y, QInt(w)))
GoodRest(r, y) == IF y.p.s > 0 THEN r.p.s > 0 /\ QCmp(r, y) < 0 ELSE (QZero(r) \/ r.p.s < 0) /\ QCmp(r, y) > 0
(* The harness is to propose the right quotient: if not, the row says nothing. *)
Good ==
  CASE Row.op = "mod" -> GoodRest(Remainder(QOf(Row.a), QOf(Row.b), Z(Row.w.s, Row.w.m)), QOf(Row.b))
    [] Row.op = "int" /\ Row.a.k = "f" ->
         LET w == Z(Row.w.s, Row.w.m)
             r == QSub(QOf(Row.a), QInt(w))
         IN (w.m = <<>> \/ w.s = Row.a.m.s) /\ (QZero(r) \/ r.p.s = Row.a.m.s) /\ QCmp([p |-> ZAbs(r.p), q |-> r.q], QInt(ZOne)) < 0
    [] OTHER -> TRUE

Agrees ==
  LET op == Row.op o == Row.out a == Row.a
      x == QOf(a)
      y == QOf(Row.b)
      bothI == IsI(a) /\ IsI(Row.b)
      Num(q) == IF bothI THEN IsInt(o, q.p) ELSE IsFlt(o, q)
      c == QCmp(x, y)
  IN CASE op = "add" -> Num(QAdd(x, y))
       [] op = "sub" -> Num(QSub(x, y))
       [] op = "mul" -> Num(QMul(x, y))
       [] op = "div" -> IsFlt(o, QDiv(x, y))
       [] op = "mod" -> Num(Remainder(x, y, Z(Row.w.s, Row.w.m)))
       [] op = "pow" -> IsInt(o, ZPow(ZOf(a), Row.n))
       [] op = "neg" -> IF IsI(a) THEN IsInt(o, ZNeg(ZOf(a))) ELSE IsFlt(o, [p |-> ZNeg(x.p), q |-> x.q])
       [] op = "truth" -> IsBool(o, ~QZero(x))
       [] op = "eq" -> IsBool(o, c = 0)
       [] op = "ne" -> IsBool(o, c # 0)
       [] op = "lt" -> IsBool(o, c < 0)
       [] op = "le" -> IsBool(o, c <= 0)
       [] op = "gt" -> IsBool(o, c > 0)
       [] op = "ge" -> IsBool(o, c >= 0)
       [] op = "lit" ->                      \* a.t is a literal
            IF HasDot(a.t) THEN IsFlt(o, QDecimal(a.t)) ELSE IsInt(o, Z(1, NOfDigits(a.t)))
       [] op = "str" ->
            IF IsI(a) THEN IsStr(o, TextOfZ(ZOf(a)))
            ELSE o.k = "s" /\ o.t # <<>> /\ SignOf(o.t) = a.m.s /\ o.t[1] # 43 /\ HasDot(o.t) /\ ShortestText(o.t, DOf(a))
       [] op = "int" ->
            IF a.k = "s" THEN IsInt(o, Z(SignOf(a.t), NOfDigits(Unsigned(a.t))))
            ELSE IF IsI(a) THEN IsInt(o, ZOf(a))
            ELSE IsInt(o, Z(Row.w.s, Row.w.m))
       [] op = "float" ->
            IF a.k = "s" THEN IsFlt(o, IF HasDot(a.t) THEN QDecimal(a.t) ELSE QInt(Z(SignOf(a.t), NOfDigits(Unsigned(a.t)))))
            ELSE IsFlt(o, x)

Verdict == IF ~Good THEN "oos" ELSE IF Agrees THEN "accept" ELSE "reject"
Judge == LET v == Verdict IN v # "accept" => PrintT(ToJson([id |-> Row.id, v |-> v, want |-> <<>>]))

Init == k \in {n \in 1..Len(Table.rows) : n % Chunk = 1}
Next == k < Len(Table.rows) /\ k % Chunk # 0 /\ k' = k + 1
Spec == Init /\ [][Next]_k
=============================================================================
