------------------------------- MODULE WNames -------------------------------
(* Names of sub-packages and plugins (C26). Rows recorded from the code:     *)
(*  "pair": a named object a against b (kind sub, plug, str or other): the   *)
(*      six comparisons of a with b and of b with a (1, 0, or 2: TypeError)  *)
(*      and whether the hashes agree;                                        *)
(*  "set":  names put one after the other into a list, a set and a mapping   *)
(*      (whose values are the positions), sorted, and looked up;             *)
(*  "pkg":  a sub-package with files: its plugins.                           *)
EXTENDS WText, TLC, Json, IOUtils

Table == JsonDeserialize(IOEnv.WIZ_JOBS)
Chunk == 64
VARIABLE k
Row == Table.rows[k]

B(x) == IF x THEN 1 ELSE 0
Comparisons(a, b) ==          \* == != < <= > >=
  LET x == CaseFold(a)
      y == CaseFold(b)
  IN <<B(x = y), B(x # y), B(TextLt(x, y)), B(TextLe(x, y)), B(TextLt(y, x)), B(TextLe(y, x))>>

ExpectedPair ==
  IF Row.bk = "other" THEN [ab |-> [n \in 1..6 |-> 2], ba |-> [n \in 1..6 |-> 2], h |-> 0]
  ELSE [ab |-> Comparisons(Row.a, Row.b), ba |-> Comparisons(Row.b, Row.a),
        h |-> IF Row.bk = "str" THEN 0 ELSE B(CaseFold(Row.a) = CaseFold(Row.b))]

(* ------------------------------- containers ------------------------------ *)
Names == Row.names
Hits(q) == {n \in 1..Len(Names) : SameName(Names[n], q)}
(* The first spelling of each name, in order.                               *)
RECURSIVE Firsts(_, _)
Firsts(n, s) ==
  IF n > Len(Names) THEN s
  ELSE Firsts(n + 1, IF \E i \in 1..Len(s) : SameName(s[i], Names[n]) THEN s ELSE Append(s, Names[n]))
(* Stable sorting by case-folded text.                                      *)
Before(n, o) ==
  LET x == CaseFold(Names[n])
      y == CaseFold(Names[o])
  IN TextLt(x, y) \/ (x = y /\ n < o)
Rank(n) == Cardinality({o \in 1..Len(Names) : Before(o, n)}) + 1
SortedNames == [r \in 1..Len(Names) |-> Names[CHOOSE n \in 1..Len(Names) : Rank(n) = r]]

ExpectedSet ==
  [distinct |-> Len(Firsts(1, <<>>)),
   keys |-> Firsts(1, <<>>),
   sorted |-> SortedNames,
   found |-> [i \in 1..Len(Row.queries) |->
       LET H == Hits(Row.queries[i])
       IN [in |-> B(H # {}), count |-> Cardinality(H),
           index |-> IF H = {} THEN 0 ELSE SetMin(H),
           value |-> IF H = {} THEN 0 ELSE SetMax(H)]]]

IsPlugin(t) == \E s \in {<<46, 101, 115, 112>>, <<46, 101, 115, 109>>, <<46, 101, 115, 108>>} : EndsWith(t, s)
Plugins(fs) ==
  LET pl == SelectSeq(fs, IsPlugin) IN [n \in 1..Len(pl) |-> BaseName(pl[n])]
ExpectedPkg ==
  [name |-> Row.name, plugins |-> Plugins(Row.files), is |-> [n \in 1..Len(Row.files) |-> B(IsPlugin(Row.files[n]))]]

Expected == CASE Row.kind = "pair" -> ExpectedPair [] Row.kind = "set" -> ExpectedSet [] Row.kind = "pkg" -> ExpectedPkg

Judge ==
  Row.out # Expected => PrintT(ToJson([id |-> Row.id, v |-> "reject", want |-> Expected]))

(* On the way: the comparison is a total order compatible with the hashes.  *)
Lawful ==
  Row.kind = "pair" =>
    LET c == Comparisons(Row.a, Row.b)
    IN c[1] + c[3] + c[5] = 1 /\ c[2] = 1 - c[1] /\ c[4] = 1 - c[5] /\ c[6] = 1 - c[3]

Init == k \in {n \in 1..Len(Table.rows) : n % Chunk = 1}
Next == k < Len(Table.rows) /\ k % Chunk # 0 /\ k' = k + 1
Spec == Init /\ [][Next]_k
=============================================================================
