------------------------------ MODULE WGrammar ------------------------------
(* The grammar of the Wizard language. Expressions: precedence climbing      *)
(* over the levels below. Statements: recursive descent to the tables of     *)
(* statements and blocks that the machine executes.                          *)
EXTENDS WLexer
LOCAL SX == INSTANCE SequencesExt

Level(o) ==
  CASE o = "pow" -> 10
    [] o \in {"mul", "div", "mod"} -> 9
    [] o \in {"add", "sub"} -> 8
    [] o \in {"gt", "ge", "gti", "gei"} -> 7
    [] o \in {"lt", "le", "lti", "lei"} -> 6
    [] o \in {"eq", "ne", "eqi", "nei"} -> 5
    [] o = "or" -> 4
    [] o = "and" -> 3
    [] o = "in" -> 2
NegLevel == 14
NotLevel == 13
IndexLevel == 12

Binary(t) ==          \* the operator of a token, "" if it is none
  IF t.t = "op" THEN
    CASE t.s = "^" -> "pow" [] t.s = "*" -> "mul" [] t.s = "/" -> "div" [] t.s = "%" -> "mod" [] t.s = "+" -> "add"
      [] t.s = "-" -> "sub" [] t.s = ">" -> "gt" [] t.s = ">=" -> "ge" [] t.s = "<" -> "lt" [] t.s = "<=" -> "le"
      [] t.s = "==" -> "eq" [] t.s = "!=" -> "ne" [] t.s = "|" -> "or" [] t.s = "&" -> "and" [] OTHER -> ""
  ELSE IF t.t = "id" /\ t.s \in {"or", "and", "in"} THEN t.s ELSE ""
Insensitive(o) ==     \* the variant with a colon
  CASE o = "eq" -> "eqi" [] o = "ne" -> "nei" [] o = "lt" -> "lti" [] o = "le" -> "lei" [] o = "gt" -> "gti" [] o = "ge" -> "gei"
    [] OTHER -> ""

IsOp(t, s) == t.t = "op" /\ t.s = s
IsWord(t, s) == t.t = "id" /\ t.s = s
P(e, i) == [e |-> e, i |-> i]          \* tree and position of the next token
PError == -1000000                     \* position after a syntax error
Bad == P([op |-> "bad"], PError)
VarIndex(names, c) == LET N == {n \in 1..Len(names) : names[n] = c} IN IF N = {} THEN 0 ELSE CHOOSE n \in N : TRUE

RECURSIVE PExpr(_, _, _, _), PLoop(_, _, _, _, _), PBounds(_, _, _, _, _), PArgs(_, _, _, _), PList(_, _, _, _)

PExpr(ts, nm, i, p) ==
  LET t == ts[i]
      Un(op, lvl) == LET r == PExpr(ts, nm, i + 1, lvl)
                     IN IF r.i = PError THEN Bad ELSE PLoop(ts, nm, r.i, p, [op |-> op, k |-> <<r.e>>])
      Lit(v) == PLoop(ts, nm, i + 1, p, [op |-> "lit", v |-> v])
  IN CASE t.t \in {"int", "dec", "str"} -> Lit(t.v)
       [] IsWord(t, "True") -> Lit(VBool(TRUE))
       [] IsWord(t, "False") -> Lit(VBool(FALSE))
       [] IsWord(t, "SubPackages") -> Lit(SubPkgs)
       [] IsWord(t, "not") \/ IsOp(t, "!") -> Un("not", NotLevel)
       [] IsOp(t, "-") -> Un("neg", NegLevel)
       [] IsOp(t, "(") -> LET r == PExpr(ts, nm, i + 1, 0)
                          IN IF r.i = PError THEN Bad ELSE IF ~IsOp(ts[r.i], ")") THEN Bad ELSE PLoop(ts, nm, r.i + 1, p, r.e)
       [] t.t = "op" /\ t.s \in {"++", "--"} /\ ts[i + 1].t = "id" ->
            PLoop(ts, nm, i + 2, p, [op |-> IF t.s = "++" THEN "inc" ELSE "dec", x |-> VarIndex(nm, ts[i + 1].c)])
       [] t.t = "id" /\ IsOp(ts[i + 1], "(") ->
            LET a == PArgs(ts, nm, i + 2, <<>>)
            IN IF a.i = PError THEN Bad ELSE PLoop(ts, nm, a.i, p, [op |-> "call", n |-> t.s, t |-> t.c, k |-> a.e])
       [] t.t = "id" /\ ts[i + 1].t = "op" /\ ts[i + 1].s \in {"++", "--"} ->
            PLoop(ts, nm, i + 2, p, [op |-> IF ts[i + 1].s = "++" THEN "inc" ELSE "dec", x |-> VarIndex(nm, t.c)])
       [] t.t = "id" -> PLoop(ts, nm, i + 1, p, [op |-> "var", x |-> VarIndex(nm, t.c)])
       [] OTHER -> Bad

(* The arguments of a call, after the left parenthesis.                     *)
PArgs(ts, nm, i, es) ==
  IF IsOp(ts[i], ")") /\ es = <<>> THEN P(es, i + 1)
  ELSE LET r == PExpr(ts, nm, i, 0)
       IN IF r.i = PError THEN Bad
          ELSE IF IsOp(ts[r.i], ",") THEN PArgs(ts, nm, r.i + 1, Append(es, r.e))
          ELSE IF IsOp(ts[r.i], ")") THEN P(Append(es, r.e), r.i + 1) ELSE Bad

(* The bounds of a slice: e (the trees), h (which are there), next position. *)
PBounds(ts, nm, i, es, h) ==
  CASE IsOp(ts[i], "]") -> [e |-> es, h |-> h, i |-> i + 1]
    [] IsOp(ts[i], ":") -> PBounds(ts, nm, i + 1, es, Append(h, 0))
    [] OTHER -> LET r == PExpr(ts, nm, i, 0)
                IN IF r.i = PError THEN [e |-> es, h |-> h, i |-> PError]
                   ELSE PBounds(ts, nm, r.i, Append(es, r.e), [h EXCEPT ![Len(h)] = 1])

PLoop(ts, nm, i, p, l) ==
  LET t == ts[i]
      o == Binary(t)
      ci == Insensitive(o) # "" /\ IsOp(ts[i + 1], ":")
  IN CASE o # "" /\ Level(o) >= p ->
            LET r == PExpr(ts, nm, IF ci THEN i + 2 ELSE i + 1, Level(o) + 1)
                ini == o = "in" /\ IsOp(ts[r.i], ":")
            IN IF r.i = PError THEN Bad
               ELSE PLoop(ts, nm, IF ini THEN r.i + 1 ELSE r.i, p,
                          [op |-> IF ini THEN "ini" ELSE IF ci THEN Insensitive(o) ELSE o, k |-> <<l, r.e>>])
       [] IsOp(t, ".") ->
            IF ts[i + 1].t = "id" /\ IsOp(ts[i + 2], "(")
            THEN LET a == PArgs(ts, nm, i + 3, <<>>)
                 IN IF a.i = PError THEN Bad
                    ELSE PLoop(ts, nm, a.i, p, [op |-> "meth", n |-> ts[i + 1].s, t |-> ts[i + 1].c, k |-> <<l>> \o a.e])
            ELSE Bad
       [] IsOp(t, "[") /\ IndexLevel >= p ->
            LET b == PBounds(ts, nm, i + 1, <<>>, <<0>>)
            IN IF b.i = PError THEN Bad
               ELSE PLoop(ts, nm, b.i, p,
                     IF Len(b.h) = 1 THEN [op |-> "idx", k |-> <<l>> \o b.e]
                     ELSE [op |-> "slice", k |-> <<l>> \o b.e, h |-> IF Len(b.h) = 2 THEN Append(b.h, 0) ELSE b.h])
       [] OTHER -> P(l, i)

(* Expressions separated by commas.                                         *)
PList(ts, nm, i, es) ==
  LET r == PExpr(ts, nm, i, 0)
  IN IF r.i = PError THEN Bad
     ELSE IF IsOp(ts[r.i], ",") THEN PList(ts, nm, r.i + 1, Append(es, r.e)) ELSE P(Append(es, r.e), r.i)

(* ------------------------------- statements ------------------------------ *)
KeywordNames == {"DeSelectAll", "DeSelectAllPlugins", "DeSelectAllEspms", "DeSelectPlugin", "DeSelectEspm", "DeSelectSubPackage",
  "Note", "RenamePlugin", "RenameEspm", "RequireVersions", "ResetPluginName", "ResetEspmName", "ResetAllPluginNames",
  "ResetAllEspmNames", "SelectAll", "SelectAllPlugins", "SelectAllEspms", "SelectPlugin", "SelectEspm", "SelectSubPackage"}
Ends == {"EndIf", "Elif", "Else", "EndFor", "EndWhile", "EndSelect", "Case", "Default"}
Openers == {"If", "For", "While", "SelectOne", "SelectMany"}
Closers == {"EndIf", "EndFor", "EndWhile", "EndSelect"}
Reserved == KeywordNames \cup Ends \cup Openers \cup {"Break", "Continue", "Return", "Cancel", "from", "to", "by", "in", "or", "and"}
CompoundOp(t) ==
  IF t.t # "op" THEN ""
  ELSE CASE t.s = "+=" -> "add" [] t.s = "-=" -> "sub" [] t.s = "*=" -> "mul" [] t.s = "/=" -> "div" [] t.s = "%=" -> "mod"
         [] t.s = "^=" -> "pow" [] OTHER -> ""

(* Can an expression that belongs to the statement before it start at i?    *)
Starts(ts, i) ==
  \/ ts[i].t \in {"int", "dec", "str"}
  \/ ts[i].t = "op" /\ ts[i].s \in {"(", "-", "!", "++", "--"}
  \/ ts[i].t = "id" /\ ts[i].s \notin Reserved /\ ~IsOp(ts[i + 1], "=") /\ CompoundOp(ts[i + 1]) = ""
     /\ ~(IsOp(ts[i + 1], ".") /\ ~IsOp(ts[i + 3], "("))

(* Q: position, tables so far, and what was parsed (id of a block, ids).    *)
Q(i, q, r) == [i |-> i, q |-> q, r |-> r]
AddStmt(q, s) == [q EXCEPT !.stmts = Append(@, s)]

(* After a line that cannot be parsed: the end of the block it is in.       *)
RECURSIVE BlockEnd(_, _, _)
BlockEnd(ts, i, depth) ==
  IF ts[i].t = "eof" THEN i
  ELSE IF ts[i].t = "id" /\ depth = 0 /\ ts[i].s \in Ends THEN i
  ELSE BlockEnd(ts, i + 1, IF ts[i].t # "id" THEN depth ELSE IF ts[i].s \in Openers THEN depth + 1
                           ELSE IF ts[i].s \in Closers THEN depth - 1 ELSE depth)

RECURSIVE PBlock(_, _, _, _), PStmts(_, _, _, _, _), PStmt(_, _, _, _), PElifs(_, _, _, _, _), PCases(_, _, _, _, _), POpts(_, _, _, _)

PBlock(ts, nm, i, q) ==
  LET r == PStmts(ts, nm, i, q, <<>>)
  IN Q(r.i, [r.q EXCEPT !.blocks = Append(@, r.r)], Len(r.q.blocks) + 1)

(* A block is parsed statement by statement, folding over some of them at a  *)
(* time (the evaluation of a deep recursion is slow).                        *)
AtEnd(ts, i) == ts[i].t = "eof" \/ (ts[i].t = "id" /\ ts[i].s \in Ends)
PStmts(ts, nm, i, q, ids) ==
  LET Step(z, n) ==
        IF AtEnd(ts, z.i) THEN z
        ELSE LET r == PStmt(ts, nm, z.i, z.q)
             IN IF r.i = PError
                THEN LET b == AddStmt(z.q, [k |-> "broken", line |-> ts[z.i].l])
                     IN Q(BlockEnd(ts, z.i, 0), b, Append(z.r, Len(b.stmts)))
                ELSE Q(r.i, r.q, Append(z.r, Len(r.q.stmts)))
      z == SX!FoldLeft(Step, Q(i, q, ids), <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16>>)
  IN IF AtEnd(ts, z.i) THEN z ELSE PStmts(ts, nm, z.i, z.q, z.r)

BadQ(q) == Q(PError, q, 0)
(* The line of what begins at i and ends before j: none that could be        *)
(* compared when it is continued on another one.                             *)
LineOf(ts, i, j) == IF ts[j - 1].l = ts[i].l THEN ts[i].l ELSE -1

(* [e |-> cond, b |-> block, line] for the Elif branches.                   *)
PElifs(ts, nm, i, q, cs) ==
  IF ~IsWord(ts[i], "Elif") THEN Q(i, q, cs)
  ELSE LET c == PExpr(ts, nm, i + 1, 0)
           b == PBlock(ts, nm, c.i, q)
       IN IF c.i = PError THEN BadQ(q)
          ELSE PElifs(ts, nm, b.i, b.q, Append(cs, [e |-> c.e, b |-> b.r, line |-> LineOf(ts, i, c.i)]))
PCases(ts, nm, i, q, cs) ==
  IF ~IsWord(ts[i], "Case") THEN Q(i, q, cs)
  ELSE LET c == PExpr(ts, nm, i + 1, 0)
           b == PBlock(ts, nm, c.i, q)
       IN IF c.i = PError THEN BadQ(q)
          ELSE PCases(ts, nm, b.i, b.q, Append(cs, [e |-> c.e, b |-> b.r, line |-> LineOf(ts, i, c.i)]))
POpts(ts, nm, i, os) ==
  IF ~IsOp(ts[i], ",") THEN P(os, i)
  ELSE LET a == PExpr(ts, nm, i + 1, 0)
           b == PExpr(ts, nm, a.i + 1, 0)
           c == PExpr(ts, nm, b.i + 1, 0)
       IN IF a.i = PError THEN Bad ELSE IF ~IsOp(ts[a.i], ",") \/ b.i = PError THEN Bad
          ELSE IF ~IsOp(ts[b.i], ",") \/ c.i = PError THEN Bad
          ELSE POpts(ts, nm, c.i, Append(os, [k |-> <<a.e, b.e, c.e>>, line |-> LineOf(ts, i + 1, c.i)]))

PStmt(ts, nm, i, q) ==
  LET t == ts[i]
      l == t.l
      One(j, s) == IF j = PError THEN BadQ(q) ELSE Q(j, AddStmt(q, s), 0)
  IN CASE t.t = "id" /\ t.s \in KeywordNames ->
            IF Starts(ts, i + 1)
            THEN LET a == PList(ts, nm, i + 1, <<>>) IN One(a.i, [k |-> "kw", n |-> t.s, args |-> a.e, line |-> LineOf(ts, i, a.i)])
            ELSE One(i + 1, [k |-> "kw", n |-> t.s, args |-> <<>>, line |-> l])
       [] IsWord(t, "Break") -> One(i + 1, [k |-> "break", line |-> l])
       [] IsWord(t, "Continue") -> One(i + 1, [k |-> "continue", line |-> l])
       [] IsWord(t, "Return") -> One(i + 1, [k |-> "return", line |-> l])
       [] IsWord(t, "Cancel") ->
            IF Starts(ts, i + 1)
            THEN LET a == PExpr(ts, nm, i + 1, 0) IN One(a.i, [k |-> "cancel", args |-> <<a.e>>, line |-> LineOf(ts, i, a.i)])
            ELSE One(i + 1, [k |-> "cancel", args |-> <<>>, line |-> l])
       [] IsWord(t, "If") ->
            LET c == PExpr(ts, nm, i + 1, 0)
                b == PBlock(ts, nm, c.i, q)
                es == PElifs(ts, nm, b.i, b.q, <<[e |-> c.e, b |-> b.r, line |-> LineOf(ts, i, c.i)]>>)
                e == PBlock(ts, nm, es.i + 1, es.q)
            IN IF c.i = PError THEN BadQ(q) ELSE IF es.i = PError THEN BadQ(q)
               ELSE IF IsWord(ts[es.i], "EndIf")
               THEN Q(es.i + 1, AddStmt(es.q, [k |-> "if", conds |-> es.r, els |-> 0, line |-> LineOf(ts, i, c.i)]), 0)
               ELSE IF ~IsWord(ts[es.i], "Else") THEN BadQ(q)
               ELSE IF ~IsWord(ts[e.i], "EndIf") THEN BadQ(q)
               ELSE Q(e.i + 1, AddStmt(e.q, [k |-> "if", conds |-> es.r, els |-> e.r, line |-> LineOf(ts, i, c.i)]), 0)
       [] IsWord(t, "While") ->
            LET c == PExpr(ts, nm, i + 1, 0)
                b == PBlock(ts, nm, c.i, q)
            IN IF c.i = PError THEN BadQ(q) ELSE IF ~IsWord(ts[b.i], "EndWhile") THEN BadQ(q)
               ELSE Q(b.i + 1, AddStmt(b.q, [k |-> "while", e |-> c.e, b |-> b.r, line |-> LineOf(ts, i, c.i)]), 0)
       [] IsWord(t, "For") /\ IsWord(ts[i + 2], "in") ->
            LET c == PExpr(ts, nm, i + 3, 0)
                b == PBlock(ts, nm, c.i, q)
            IN IF c.i = PError THEN BadQ(q) ELSE IF ~IsWord(ts[b.i], "EndFor") THEN BadQ(q)
               ELSE Q(b.i + 1, AddStmt(b.q, [k |-> "fori", x |-> VarIndex(nm, ts[i + 1].c), e |-> c.e, b |-> b.r, line |-> LineOf(ts, i, c.i)]), 0)
       [] IsWord(t, "For") ->
            LET a == PExpr(ts, nm, i + 3, 0)
                z == PExpr(ts, nm, a.i + 1, 0)
                by == PExpr(ts, nm, z.i + 1, 0)
                has == IsWord(ts[z.i], "by")
                b == PBlock(ts, nm, IF has THEN by.i ELSE z.i, q)
            IN IF ~IsWord(ts[i + 2], "from") \/ a.i = PError THEN BadQ(q)
               ELSE IF ~IsWord(ts[a.i], "to") \/ z.i = PError THEN BadQ(q)
               ELSE IF has /\ by.i = PError THEN BadQ(q)
               ELSE IF ~IsWord(ts[b.i], "EndFor") THEN BadQ(q)
               ELSE Q(b.i + 1, AddStmt(b.q, [k |-> "forr", x |-> VarIndex(nm, ts[i + 1].c),
                                             args |-> IF has THEN <<a.e, z.e, by.e>> ELSE <<a.e, z.e>>, b |-> b.r, line |-> LineOf(ts, i, IF has THEN by.i ELSE z.i)]), 0)
       [] t.t = "id" /\ t.s \in {"SelectOne", "SelectMany"} ->
            LET d == PExpr(ts, nm, i + 1, 0)
                o == POpts(ts, nm, d.i, <<>>)
                cs == PCases(ts, nm, o.i, q, <<>>)
                df == PBlock(ts, nm, cs.i + 1, cs.q)
                has == IsWord(ts[cs.i], "Default")
                Stmt_(b) == [k |-> "select", many |-> t.s = "SelectMany", desc |-> d.e, opts |-> o.e, cases |-> cs.r,
                             default |-> b, line |-> LineOf(ts, i, d.i)]
            IN IF d.i = PError THEN BadQ(q) ELSE IF o.i = PError THEN BadQ(q) ELSE IF cs.i = PError THEN BadQ(q)
               ELSE IF has /\ ~IsWord(ts[df.i], "EndSelect") THEN BadQ(q)
               ELSE IF ~has /\ ~IsWord(ts[cs.i], "EndSelect") THEN BadQ(q)
               ELSE IF has THEN Q(df.i + 1, AddStmt(df.q, Stmt_(df.r)), 0) ELSE Q(cs.i + 1, AddStmt(cs.q, Stmt_(0)), 0)
       [] t.t = "id" /\ IsOp(ts[i + 1], "=") ->
            LET e == PExpr(ts, nm, i + 2, 0) IN One(e.i, [k |-> "assign", x |-> VarIndex(nm, t.c), e |-> e.e, line |-> LineOf(ts, i, e.i)])
       [] t.t = "id" /\ CompoundOp(ts[i + 1]) # "" ->
            LET e == PExpr(ts, nm, i + 2, 0)
            IN One(e.i, [k |-> "compound", x |-> VarIndex(nm, t.c), o |-> CompoundOp(ts[i + 1]), e |-> e.e, line |-> LineOf(ts, i, e.i)])
       [] OTHER ->
            LET e == PExpr(ts, nm, i, 0)
            IN IF e.i = PError THEN BadQ(q)
               ELSE IF e.e.op = "call" /\ IsWord(t, "Exec") THEN One(e.i, [k |-> "exec", args |-> e.e.k, line |-> LineOf(ts, i, e.i)])
               ELSE One(e.i, [k |-> "expr", e |-> e.e, line |-> LineOf(ts, i, e.i)])

(* The tokens, with some more ends to look at.                              *)
Ahead(ts) == LET e == ts[Len(ts)] IN ts \o <<e, e, e, e>>

(* The program of a script: its statements and blocks, the root block.      *)
ParseInto(src, words, names, q) ==
  LET ts == Lex(src, words)
      far == Ahead(ts)
  IN PBlock(far, names, 1, q)
NoCode == [stmts |-> <<>>, blocks |-> <<>>]

RECURSIVE ParseExecs(_, _, _, _, _, _)
ParseExecs(execs, k, words, names, q, es) ==
  IF k > Len(execs) THEN Q(0, q, es)
  ELSE IF execs[k].b = 0 THEN ParseExecs(execs, k + 1, words, names, q, Append(es, execs[k]))
  ELSE LET r == ParseInto(execs[k].t, words, names, q)
       IN ParseExecs(execs, k + 1, words, names, r.q, Append(es, [t |-> execs[k].t, b |-> r.r]))
ParseScript(src, words, names, execs) ==
  LET r == ParseInto(src, words, names, NoCode)
      e == ParseExecs(execs, 1, words, names, r.q, <<>>)
  IN [stmts |-> e.q.stmts, blocks |-> e.q.blocks, root |-> r.r, execs |-> e.r]

ParseExpr(src, words, names) ==
  LET ts == Lex(src, words)
      far == Ahead(ts)
      r == PExpr(far, names, 1, 0)
  IN IF r.i = PError THEN [op |-> "bad"] ELSE IF ts[r.i].t # "eof" THEN [op |-> "bad"] ELSE r.e
=============================================================================
