------------------------------- MODULE WTable -------------------------------
(* Values of single expressions recorded from the implementation against    *)
(* the specification of the operators and functions. A row is an expression *)
(* tree, the text of an expression (src) or of a script of one assignment    *)
(* (script), which are parsed first.                                         *)
EXTENDS WExpr, WGrammar, Json, IOUtils

Table == JsonDeserialize(IOEnv.WIZ_JOBS)
Chunk == 64

VARIABLE k
Row == Table.rows[k]

TableJob == [pkgs |-> Table.pkgs, r |-> 1, api |-> "run", hist |-> Table.hist, names |-> <<>>, trace |-> FALSE, fold |-> FALSE]
Start == [v |-> <<>>, sp |-> <<>>, pl |-> <<>>, ren |-> <<>>, notes |-> <<>>, td |-> <<>>, tm |-> <<>>]
C0 == [J |-> TableJob, st0 |-> Start, st |-> Start, base |-> 0, out |-> <<>>, plan |-> <<>>,
       line |-> 1, f |-> "ok", x |-> 0]

Tree ==
  IF "src" \in DOMAIN Row THEN ParseExpr(Row.src, Table.words, <<>>)
  ELSE IF "script" \in DOMAIN Row
  THEN LET p == ParseScript(Row.script, Table.words, <<Table.x>>, <<>>)
           s == p.stmts[Len(p.stmts)]
       IN IF p.blocks = <<>> \/ s.k # "assign" THEN [op |-> "bad"] ELSE s.e
  ELSE Row.e
Expected ==
  LET r == IF Tree.op = "bad" THEN R(Void, Stop(C0, "oos", 0)) ELSE Eval(Tree, C0)
  IN IF Row.truth /\ Ok(r.c) THEN R(VBool(Truth(r.v, Len(Table.pkgs))), r.c) ELSE r

(* Row.out: [k |-> "v", v |-> value] or the class of the error.             *)
Verdict ==
  LET r == Expected
  IN CASE r.c.f = "oos" -> "oos"
       [] Ok(r.c) -> IF Row.out.k = "v" /\ Row.out.v = r.v THEN "accept" ELSE "reject"
       [] r.c.f = "err" ->
            IF r.c.x.cls \in {"ValueError", "ZeroDivisionError"}    \* any failure will do
            THEN (IF Row.out.k = "v" THEN "reject" ELSE "oos")
            ELSE IF Row.out.k = r.c.x.cls /\ (Row.out.k = "index" => Row.out.v = r.c.x.nm)
            THEN "accept" ELSE "reject"
       [] OTHER -> "reject"

Want == LET r == Expected IN IF Ok(r.c) THEN [k |-> "v", v |-> r.v] ELSE [k |-> r.c.x.cls, v |-> r.c.x.nm]
Judge ==
  LET v == Verdict
  IN v # "accept" => PrintT(ToJson([id |-> Row.id, v |-> v, want |-> IF v = "reject" THEN <<Want>> ELSE <<>>]))

Init == k \in {n \in 1..Len(Table.rows) : n % Chunk = 1}
Next == k < Len(Table.rows) /\ k % Chunk # 0 /\ k' = k + 1
Spec == Init /\ [][Next]_k
=============================================================================
