------------------------------ MODULE WValues ------------------------------
(* Typed values of the Wizard language, encoded as sequences of integers so *)
(* that any two of them can be compared by TLC:                             *)
(*   <<0, b>> bool        <<1, n>> integer     <<2, p, q>> float p/q (q=2^k) *)
(*   <<3>> \o t string    <<4>> void           <<5>> SubPackages            *)
(*   <<6, i>> the i-th sub-package                                          *)
(* A failed operation yields an error code instead (first element < 0).     *)
EXTENDS WText

VBool(b) == <<0, IF b THEN 1 ELSE 0>>
VInt(n) == <<1, n>>
VText(t) == <<3>> \o t
Void == <<4>>
SubPkgs == <<5>>
SubPkg(i) == <<6, i>>

TypeErr == <<-1>>
IndexErr(i) == <<-2, i>>
ValueErr == <<-3>>       \* not an error of the language: raw ValueError
ZeroDivErr == <<-4>>     \* not an error of the language: raw ZeroDivisionError
OutOfScope == <<-9>>     \* outside the arithmetic that the model represents
Failed(v) == v[1] < 0

IsBool(v) == v[1] = 0
IsIntOnly(v) == v[1] = 1
IsFloat(v) == v[1] = 2
IsText(v) == v[1] = 3
IsVoid(v) == v[1] = 4
IsSubPkgs(v) == v[1] = 5
IsSubPkg(v) == v[1] = 6
IsNum(v) == v[1] \in {0, 1, 2}
IsInt(v) == v[1] \in {0, 1}          \* booleans are integers
TextOf(v) == SubSeq(v, 2, Len(v))
IntOf(v) == v[2]
Num(v) == v[2]
Den(v) == IF v[1] = 2 THEN v[3] ELSE 1

TypeName(v) ==      \* as text: used in the names of methods
  CASE IsBool(v) -> <<98, 111, 111, 108>>
    [] IsIntOnly(v) -> <<105, 110, 116, 101, 103, 101, 114>>
    [] IsFloat(v) -> <<102, 108, 111, 97, 116>>
    [] IsText(v) -> <<115, 116, 114, 105, 110, 103>>
    [] IsVoid(v) -> <<118, 111, 105, 100>>
    [] IsSubPkgs(v) -> <<83, 117, 98, 80, 97, 99, 107, 97, 103, 101, 91, 93>>
    [] IsSubPkg(v) -> <<83, 117, 98, 80, 97, 99, 107, 97, 103, 101>>

IntLimit == 1000000000
MulLimit == 30000
DenLimit == 1024

MkInt(n) == IF Abs(n) > IntLimit THEN OutOfScope ELSE VInt(n)

RECURSIVE Reduce(_, _)
Reduce(p, q) == IF q > 1 /\ p % 2 = 0 THEN Reduce(p \div 2, q \div 2) ELSE <<2, p, q>>
(* p is halved only when even, so \div is exact whatever its sign.          *)
MkFloat(p, q) ==
  LET r == Reduce(p, q)
  IN IF Abs(r[2]) > IntLimit \/ r[3] > DenLimit THEN OutOfScope ELSE r

Small(v) == Abs(Num(v)) <= MulLimit /\ Den(v) <= DenLimit

(* ------------------------------ arithmetic ------------------------------ *)
AddV(a, b) ==
  IF IsText(a) /\ IsText(b) THEN a \o TextOf(b)
  ELSE IF ~IsNum(a) \/ ~IsNum(b) THEN TypeErr
  ELSE IF ~IsFloat(a) /\ ~IsFloat(b) THEN MkInt(Num(a) + Num(b))
  ELSE IF ~Small(a) \/ ~Small(b) THEN OutOfScope
  ELSE MkFloat(Num(a) * Den(b) + Num(b) * Den(a), Den(a) * Den(b))

SubV(a, b) ==
  IF ~IsNum(a) \/ ~IsNum(b) THEN TypeErr
  ELSE IF ~IsFloat(a) /\ ~IsFloat(b) THEN MkInt(Num(a) - Num(b))
  ELSE IF ~Small(a) \/ ~Small(b) THEN OutOfScope
  ELSE MkFloat(Num(a) * Den(b) - Num(b) * Den(a), Den(a) * Den(b))

(* The model has no negative zero: floating point products and quotients    *)
(* that would be one are out of scope.                                      *)
MulV(a, b) ==
  IF ~IsNum(a) \/ ~IsNum(b) THEN TypeErr
  ELSE IF ~Small(a) \/ ~Small(b) THEN OutOfScope
  ELSE IF ~IsFloat(a) /\ ~IsFloat(b) THEN MkInt(Num(a) * Num(b))
  ELSE IF Num(a) * Num(b) = 0 /\ (Num(a) < 0 \/ Num(b) < 0) THEN OutOfScope
  ELSE MkFloat(Num(a) * Num(b), Den(a) * Den(b))

RECURSIVE OddPart(_)
OddPart(n) == IF n % 2 = 0 THEN OddPart(n \div 2) ELSE n
(* (p / q) for any integers, q # 0: only dyadic quotients are represented.  *)
Quotient(p, q) ==
  LET s == IF q < 0 THEN -1 ELSE 1
      o == OddPart(Abs(q))
  IN IF FloorMod(p, o) # 0 THEN OutOfScope
     ELSE IF p = 0 /\ q < 0 THEN OutOfScope
     ELSE MkFloat(s * FloorDiv(p, o), Abs(q) \div o)

DivV(a, b) ==
  IF ~IsNum(a) \/ ~IsNum(b) THEN TypeErr
  ELSE IF Num(b) = 0 THEN ZeroDivErr
  ELSE IF ~Small(a) \/ ~Small(b) THEN OutOfScope
  ELSE Quotient(Num(a) * Den(b), Num(b) * Den(a))

ModV(a, b) ==
  IF ~IsNum(a) \/ ~IsNum(b) THEN TypeErr
  ELSE IF Num(b) = 0 THEN ZeroDivErr
  ELSE IF ~IsFloat(a) /\ ~IsFloat(b) THEN VInt(FloorMod(Num(a), Num(b)))
  ELSE IF ~Small(a) \/ ~Small(b) THEN OutOfScope
  ELSE LET m == FloorMod(Num(a) * Den(b), Num(b) * Den(a))
       IN IF m = 0 /\ (Num(a) < 0 \/ Num(b) < 0) THEN OutOfScope
          ELSE MkFloat(m, Den(a) * Den(b))

RECURSIVE PowV(_, _)
PowV(a, b) ==
  IF ~IsNum(a) \/ ~IsNum(b) THEN TypeErr
  ELSE IF Den(b) # 1 \/ Abs(Num(b)) > 40 THEN OutOfScope
  ELSE IF Num(b) < 0 THEN
    (IF Num(a) = 0 THEN ZeroDivErr
     ELSE LET p == PowV(a, VInt(-Num(b)))
          IN IF Failed(p) THEN p ELSE DivV(<<2, 1, 1>>, p))
  ELSE IF Num(b) = 0 THEN (IF IsFloat(a) \/ IsFloat(b) THEN <<2, 1, 1>> ELSE VInt(1))
  ELSE IF IsFloat(a) /\ Num(a) = 0 THEN <<2, 0, 1>>
  ELSE LET p == PowV(a, VInt(Num(b) - 1))
           r == IF Failed(p) THEN p ELSE MulV(a, p)
       IN IF Failed(r) THEN r ELSE IF IsFloat(b) /\ ~IsFloat(r) THEN <<2, r[2], 1>> ELSE r

NegV(a) ==
  IF IsIntOnly(a) THEN VInt(-Num(a))
  ELSE IF IsFloat(a) THEN (IF Num(a) = 0 THEN OutOfScope ELSE <<2, -Num(a), Den(a)>>)
  ELSE TypeErr

(* ------------------------------ comparison ------------------------------ *)
NumLt(a, b) == Num(a) * Den(b) < Num(b) * Den(a)
NumEq(a, b) == Num(a) * Den(b) = Num(b) * Den(a)
CmpSmall(a, b) == Abs(Num(a)) <= 1000000 /\ Abs(Num(b)) <= 1000000

OrdV(a, b, op) ==      \* op: "lt", "le", "gt", "ge"
  IF IsNum(a) /\ IsNum(b) THEN
    IF (IsFloat(a) \/ IsFloat(b)) /\ ~CmpSmall(a, b) THEN OutOfScope
    ELSE VBool(CASE op = "lt" -> NumLt(a, b) [] op = "gt" -> NumLt(b, a)
                [] op = "le" -> ~NumLt(b, a) [] op = "ge" -> ~NumLt(a, b))
  ELSE IF IsText(a) /\ IsText(b) THEN
    LET s == TextOf(a) t == TextOf(b)
    IN VBool(CASE op = "lt" -> TextLt(s, t) [] op = "gt" -> TextLt(t, s)
              [] op = "le" -> TextLe(s, t) [] op = "ge" -> TextLe(t, s))
  ELSE TypeErr

(* Equality: names is the sequence of the sub-packages' names.              *)
EqV(a, b, names) ==
  IF IsNum(a) /\ IsNum(b) THEN
    IF (IsFloat(a) \/ IsFloat(b)) /\ ~CmpSmall(a, b) THEN OutOfScope ELSE VBool(NumEq(a, b))
  ELSE IF IsSubPkg(a) /\ IsSubPkg(b) THEN VBool(SameName(names[a[2]], names[b[2]]))
  ELSE IF IsSubPkg(a) /\ IsText(b) THEN VBool(SameName(names[a[2]], TextOf(b)))
  ELSE IF IsSubPkg(b) /\ IsText(a) THEN VBool(SameName(names[b[2]], TextOf(a)))
  ELSE IF IsSubPkg(a) \/ IsSubPkg(b) THEN TypeErr
  ELSE IF IsVoid(a) /\ IsVoid(b) THEN OutOfScope    \* identity of void results
  ELSE VBool(a = b)
NotV(r) == IF Failed(r) THEN r ELSE VBool(r[2] = 0)

Truth(v, npkgs) ==
  CASE IsNum(v) -> Num(v) # 0
    [] IsText(v) -> Len(v) > 1
    [] IsSubPkgs(v) -> npkgs > 0
    [] OTHER -> TRUE

(* ------------------------ strings and sub-packages ------------------------ *)
IndexV(a, i, names) ==
  IF ~(IsText(a) \/ IsSubPkg(a) \/ IsSubPkgs(a)) \/ ~IsInt(i) THEN TypeErr
  ELSE LET t == IF IsText(a) THEN TextOf(a) ELSE IF IsSubPkg(a) THEN names[a[2]] ELSE names
           n == IntOf(i)
           p == IF n < 0 THEN n + Len(t) + 1 ELSE n + 1
       IN IF p < 1 \/ p > Len(t) THEN IndexErr(n)
          ELSE IF IsSubPkgs(a) THEN SubPkg(p) ELSE <<3, t[p]>>

(* Omitted bounds are <<>>.                                                 *)
SliceV(a, s, e, k) ==
  IF ~IsText(a) THEN TypeErr
  ELSE IF \E b \in {s, e, k} : b # <<>> /\ ~IsInt(b) THEN TypeErr
  ELSE IF k # <<>> /\ IntOf(k) = 0 THEN ValueErr
  ELSE LET B(b) == IF b = <<>> THEN <<>> ELSE <<IntOf(b)>>
       IN VText(SliceText(TextOf(a), B(s), B(e), IF k = <<>> THEN 1 ELSE IntOf(k)))

InV(item, a, ci, pkgs) ==
  IF ~(IsSubPkg(a) \/ IsSubPkgs(a)) \/ ~(IsText(item) \/ IsSubPkg(item)) THEN TypeErr
  ELSE LET t == IF IsText(item) THEN TextOf(item) ELSE pkgs[item[2]].name
           S == IF IsSubPkgs(a) THEN {pkgs[i].name : i \in 1..Len(pkgs)}
                ELSE {pkgs[a[2]].files[i] : i \in 1..Len(pkgs[a[2]].files)}
       IN VBool(\E u \in S : IF ci THEN Lower(u) = Lower(t) ELSE u = t)

(* --------------------------- binary operators --------------------------- *)
CaseOp(op, a, b, names) ==    \* comparison of two lower case strings
  IF ~IsText(a) \/ ~IsText(b) THEN TypeErr
  ELSE LET x == VText(Lower(TextOf(a))) y == VText(Lower(TextOf(b)))
       IN CASE op = "eqi" -> EqV(x, y, names)
            [] op = "nei" -> NotV(EqV(x, y, names))
            [] op = "lti" -> OrdV(x, y, "lt") [] op = "lei" -> OrdV(x, y, "le")
            [] op = "gti" -> OrdV(x, y, "gt") [] op = "gei" -> OrdV(x, y, "ge")

BinOps == {"add", "sub", "mul", "div", "mod", "pow", "and", "or", "eq", "ne",
           "lt", "le", "gt", "ge", "eqi", "nei", "lti", "lei", "gti", "gei",
           "in", "ini", "idx"}

BinOp(op, a, b, pkgs) ==
  LET names == [i \in 1..Len(pkgs) |-> pkgs[i].name]
  IN CASE op = "add" -> AddV(a, b)
       [] op = "sub" -> SubV(a, b)
       [] op = "mul" -> MulV(a, b)
       [] op = "div" -> DivV(a, b)
       [] op = "mod" -> ModV(a, b)
       [] op = "pow" -> PowV(a, b)
       [] op = "and" -> IF Truth(a, Len(pkgs)) THEN b ELSE a
       [] op = "or" -> VBool(Truth(a, Len(pkgs)) \/ Truth(b, Len(pkgs)))
       [] op = "eq" -> EqV(a, b, names)
       [] op = "ne" -> NotV(EqV(a, b, names))
       [] op \in {"lt", "le", "gt", "ge"} -> OrdV(a, b, op)
       [] op = "in" -> InV(a, b, FALSE, pkgs)
       [] op = "ini" -> InV(a, b, TRUE, pkgs)
       [] op = "idx" -> IndexV(a, b, names)
       [] OTHER -> CaseOp(op, a, b, names)

UnOp(op, a, pkgs) ==
  CASE op = "neg" -> NegV(a)
    [] op = "not" -> VBool(~Truth(a, Len(pkgs)))
=============================================================================
