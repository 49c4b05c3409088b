-------------------------------- MODULE WBig --------------------------------
(* Numbers of any size: integers as a sign and limbs of three decimal digits *)
(* (least significant first, no leading zeros), rationals as two of them, and *)
(* the rounding of a rational to the double that the implementation has to    *)
(* give for it.                                                               *)
EXTENDS WText

Base == 1000
Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
RECURSIVE Trim(_)
Trim(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a
(* Sums of limbs, negative ones too, brought into the range of limbs.         *)
RECURSIVE Carry(_, _, _, _)
Carry(a, i, c, acc) ==
  IF i > Len(a) THEN (IF c = 0 THEN Trim(acc) ELSE Carry(a, i, c \div Base, Append(acc, c % Base)))
  ELSE LET t == a[i] + c IN Carry(a, i + 1, t \div Base, Append(acc, t % Base))
Norm(a) == Carry(a, 1, 0, <<>>)

NAdd(a, b) == Norm([i \in 1..Max2(Len(a), Len(b)) |-> Limb(a, i) + Limb(b, i)])
NSub(a, b) == Norm([i \in 1..Len(a) |-> a[i] - Limb(b, i)])          \* a >= b
RECURSIVE Conv(_, _, _, _)
Conv(a, b, n, i) ==       \* the limb n of the product, before any carry
  IF i > Len(a) \/ i > n THEN 0 ELSE a[i] * Limb(b, n - i + 1) + Conv(a, b, n, i + 1)
NMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE Norm([n \in 1..(Len(a) + Len(b) - 1) |-> Conv(a, b, n, 1)])
RECURSIVE NPow(_, _)
NPow(a, n) ==
  IF n = 0 THEN <<1>>
  ELSE LET h == NPow(a, n \div 2) q == NMul(h, h) IN IF n % 2 = 0 THEN q ELSE NMul(q, a)
RECURSIVE NCmpAt(_, _, _)
NCmpAt(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1) ELSE NCmpAt(a, b, i - 1)
NCmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE NCmpAt(a, b, Len(a))
NEven(a) == a = <<>> \/ a[1] % 2 = 0
Two == <<2>>
One == <<1>>

(* ------------------------- integers [s, m], s = 1 or -1 ------------------ *)
Z(s, m) == [s |-> IF m = <<>> THEN 1 ELSE s, m |-> m]
ZNeg(a) == Z(-a.s, a.m)
ZAbs(a) == Z(1, a.m)
ZAdd(a, b) ==
  IF a.s = b.s THEN Z(a.s, NAdd(a.m, b.m))
  ELSE IF NCmp(a.m, b.m) >= 0 THEN Z(a.s, NSub(a.m, b.m)) ELSE Z(b.s, NSub(b.m, a.m))
ZSub(a, b) == ZAdd(a, ZNeg(b))
ZMul(a, b) == Z(a.s * b.s, NMul(a.m, b.m))
ZPow(a, n) == Z(IF n % 2 = 0 THEN 1 ELSE a.s, NPow(a.m, n))
ZCmp(a, b) == IF a.s # b.s THEN a.s ELSE a.s * NCmp(a.m, b.m)
ZZero == Z(1, <<>>)
ZOne == Z(1, One)

(* --------------------------- rationals [p, q], q > 0 --------------------- *)
Q(p, q) == IF q.s < 0 THEN [p |-> ZNeg(p), q |-> ZNeg(q)] ELSE [p |-> p, q |-> q]
QInt(z) == [p |-> z, q |-> ZOne]
QAdd(a, b) == Q(ZAdd(ZMul(a.p, b.q), ZMul(b.p, a.q)), ZMul(a.q, b.q))
QSub(a, b) == QAdd(a, [p |-> ZNeg(b.p), q |-> b.q])
QMul(a, b) == Q(ZMul(a.p, b.p), ZMul(a.q, b.q))
QDiv(a, b) == Q(ZMul(a.p, b.q), ZMul(a.q, b.p))
QCmp(a, b) == ZCmp(ZMul(a.p, b.q), ZMul(b.p, a.q))
QZero(a) == a.p.m = <<>>

(* ------------------------------- doubles --------------------------------- *)
(* The double m * 2^e, |m| of 53 bits or zero, of an ordinary exponent.       *)
Pow2(n) == NPow(Two, n)
TwoTo52 == NPow(Two, 52)
IsDouble(d) == d.m.m = <<>> \/ (NCmp(d.m.m, TwoTo52) >= 0 /\ NCmp(d.m.m, NMul(TwoTo52, Two)) < 0)
QDouble(d) ==
  IF d.e >= 0 THEN QInt(ZMul(d.m, Z(1, Pow2(d.e)))) ELSE [p |-> d.m, q |-> Z(1, Pow2(-d.e))]

(* d is the double nearest to the rational x, ties going to the even one.     *)
Nearest(x, d) ==
  IF d.m.m = <<>> THEN QZero(x)
  ELSE LET up == IF d.e >= 0 THEN Pow2(d.e) ELSE One
           dn == IF d.e >= 0 THEN One ELSE Pow2(-d.e)
           X == NMul(x.p.m, dn)                 \* |x|, |d| and their spacing, scaled alike
           u == NMul(x.q.m, up)
           D == NMul(d.m.m, u)
           below == NCmp(X, D) < 0              \* |x| < |d|
           diff == IF below THEN NSub(D, X) ELSE NSub(X, D)
           c == NCmp(NMul(Two, diff), u)
       IN /\ IsDouble(d)
          /\ x.p.s = d.m.s
          /\ IF below /\ d.m.m = TwoTo52 THEN NCmp(NMul(<<4>>, diff), u) <= 0
             ELSE c < 0 \/ (c = 0 /\ NEven(d.m.m))

(* ----------------------------- decimal text ------------------------------ *)
(* The number denoted by decimal digits.                                      *)
RECURSIVE LimbsOf(_)
LimbsOf(t) ==
  IF t = <<>> THEN <<>>
  ELSE LET n == Len(t)
           D(i) == IF i < 1 THEN 0 ELSE t[i] - 48
       IN <<D(n - 2) * 100 + D(n - 1) * 10 + D(n)>> \o LimbsOf(SubSeq(t, 1, n - 3))
NOfDigits(t) == Trim(LimbsOf(t))
Decimals10(t) == t # <<>> /\ \A i \in 1..Len(t) : t[i] \in 48..57
Digits3(n, pad) ==
  LET d == <<48 + n \div 100, 48 + ((n \div 10) % 10), 48 + (n % 10)>>
  IN IF pad THEN d ELSE SubSeq(d, IF n >= 100 THEN 1 ELSE IF n >= 10 THEN 2 ELSE 3, 3)
RECURSIVE DigitsFrom(_, _)
DigitsFrom(a, i) == IF i = 0 THEN <<>> ELSE Digits3(a[i], i < Len(a)) \o DigitsFrom(a, i - 1)
DecimalOf(a) == IF a = <<>> THEN <<48>> ELSE DigitsFrom(a, Len(a))
TextOfZ(z) == (IF z.s < 0 THEN <<45>> ELSE <<>>) \o DecimalOf(z.m)

(* Digits with a point among them, and a sign: the rational they denote and   *)
(* the number of digits after the point.                                      *)
DotAt(t) == CHOOSE i \in 1..Len(t) : t[i] = 46
HasDot(t) == \E i \in 1..Len(t) : t[i] = 46
IsDecimal(t) ==
  /\ HasDot(t)
  /\ Decimals10(SubSeq(t, 1, DotAt(t) - 1) \o SubSeq(t, DotAt(t) + 1, Len(t)))
Unsigned(t) == IF t # <<>> /\ t[1] \in {43, 45} THEN Tail(t) ELSE t
SignOf(t) == IF t # <<>> /\ t[1] = 45 THEN -1 ELSE 1
Decimals(t) == Len(t) - DotAt(t)
Significand(t) == NOfDigits(SubSeq(t, 1, DotAt(t) - 1) \o SubSeq(t, DotAt(t) + 1, Len(t)))
QDecimal(t) ==
  LET u == Unsigned(t) IN Q(Z(SignOf(t), Significand(u)), Z(1, NPow(<<10>>, Decimals(u))))

(* The text of a double: read back it gives the double, no text with a digit  *)
(* less does, and among those that do it is nearest.                          *)
ShortestText(t, d) ==
  LET u == Unsigned(t)
      all == SubSeq(u, 1, DotAt(u) - 1) \o SubSeq(u, DotAt(u) + 1, Len(u))
      k == Decimals(u)
      At10(n, j) == IF j >= 0 THEN Q(Z(SignOf(t), n), Z(1, NPow(<<10>>, j))) ELSE Q(Z(SignOf(t), NMul(n, NPow(<<10>>, -j))), ZOne)
      Fits(n, j) == n # <<>> /\ Nearest(At10(n, j), d)
      lone == k = 1 /\ u[Len(u)] = 48                 \* an integer: "12.0"
      base == IF lone THEN SubSeq(all, 1, Len(all) - 1) ELSE all
      z == CHOOSE n \in 0..Len(base) :                \* zeros at the end of an integer
             /\ \A i \in (Len(base) - n + 1)..Len(base) : base[i] = 48
             /\ (n = Len(base) \/ base[Len(base) - n] # 48)
      sig == SubSeq(base, 1, Len(base) - z)
      j == (IF lone THEN 0 ELSE k) - z                \* significand sig at 10^-j
      N == NOfDigits(sig)
      less == NOfDigits(SubSeq(sig, 1, Len(sig) - 1))
      Far(n) == LET x == At10(n, j) IN LET y == QSub(x, QDouble(d)) IN [p |-> ZAbs(y.p), q |-> y.q]
  IN /\ IsDecimal(u) /\ DotAt(u) > 1 /\ Decimals(u) >= 1
     /\ (DotAt(u) = 2 \/ u[1] # 48) /\ (k = 1 \/ u[Len(u)] # 48)
     /\ IF d.m.m = <<>> THEN u = <<48, 46, 48>>
        ELSE /\ Fits(N, j)
             /\ ~Fits(less, j - 1) /\ ~Fits(NAdd(less, One), j - 1)
             /\ \A n \in {NAdd(N, One), NSub(N, One)} : Fits(n, j) => QCmp(Far(N), Far(n)) <= 0
=============================================================================
