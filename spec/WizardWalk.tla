------------------------------ MODULE WizardWalk ------------------------------
(* Contexts executed by hand. The driver keeps every context it has ever    *)
(* been given and, in any order and any number of times, executes one of    *)
(* them (exec), executes until one of some types is found (exec_until) or   *)
(* looks at its state again. hist is that collection: a context is a        *)
(* configuration of the interpreter (stack and state) together with the     *)
(* type under which it is shown; several contexts in a row can show the     *)
(* same configuration (a body about to execute a statement, then that       *)
(* statement). Executing a context is a function of it and of the answers   *)
(* of the environment: it never changes hist.                               *)
EXTENDS Wizard

VARIABLES
  op,       \* index of the operation
  shown,    \* type of the context being executed, "" between operations
  hist      \* contexts known to the driver: [stack, st, shown]
wvars == <<vars, op, shown, hist>>

Op == J.ops[op]

(* --------------------------- types of the contexts ------------------------- *)
Zero == {"SelectAll", "DeSelectAll", "SelectAllPlugins", "DeSelectAllPlugins", "ResetAllPluginNames"}
KwTypes == Zero \cup {"SelectSubPackage", "DeSelectSubPackage", "SelectPlugin", "DeSelectPlugin",
                      "RenamePlugin", "ResetPluginName", "Note", "RequireVersions"}
IsTarget(k, ts) ==
  \/ k \in Range(ts)
  \/ k \in KwTypes /\ "kw" \in Range(ts)
  \/ k \in {"selone", "selmany"} /\ "select" \in Range(ts)
  \/ "any" \in Range(ts)

(* The next context that shows the same configuration, "" if there is none. *)
InBody == Top.k = "body" /\ Top.i <= Len(J.blocks[Top.b])
Silent ==
  CASE shown \in {"top", "case"} -> "body"
    [] shown = "cancel" -> "term"
    [] shown = "body" /\ InBody /\ Stmt.k \in {"assign", "compound", "break", "continue", "return"} -> Stmt.k
    [] shown = "body" /\ InBody /\ Stmt.k \in {"if", "exec"} -> "other"
    [] shown = "body" /\ InBody /\ Stmt.k = "kw" /\ Canonical(Stmt.n) # "RequireVersions" -> Canonical(Stmt.n)
    [] OTHER -> ""

(* One step of the interpreter.                                             *)
Kind == IF Top.k = "body" THEN (IF InBody THEN Stmt.k ELSE "bodyend") ELSE Top.k
ChosenByDefault ==
  S(Replace(stack, [k |-> "cases", s |-> Top.s, sel |-> [i \in 1..Len(Top.defs) |-> Top.os[Top.defs[i]].n],
                    i |-> 1, found |-> FALSE, ft |-> FALSE]), Ctx)
StepOf ==
  CASE Kind = "expr" -> DoExpr
    [] Kind = "assign" -> DoAssign
    [] Kind = "compound" -> DoCompound
    [] Kind = "kw" -> DoKeyword
    [] Kind = "exec" -> DoExec
    [] Kind = "if" -> DoIf
    [] Kind = "forr" -> DoForRange
    [] Kind = "fori" -> DoForIn
    [] Kind = "select" /\ Top.k = "body" -> DoSelect
    [] Kind = "while" /\ Top.k = "body" -> DoWhile
    [] Kind = "break" -> DoBreak
    [] Kind = "continue" -> DoContinue
    [] Kind = "return" -> DoReturn
    [] Kind = "cancel" -> DoCancel
    [] Kind = "broken" -> DoBroken
    [] Kind = "bodyend" -> DoBodyEnd
    [] Kind = "for" -> DoForIter
    [] Kind = "while" -> DoWhileTest
    [] Kind = "select" -> IF Op.u = "until" THEN ChosenByDefault ELSE DoPrompt
    [] Kind = "cases" -> DoCase
    [] Kind = "rv" -> DoRequire
(* The type under which the configuration reached by that step is shown.    *)
ShownAs(s) ==
  LET f == s[Len(s)]
  IN CASE f.k = "body" -> IF Kind = "exec" THEN "top"
                          ELSE IF Kind = "cases" /\ Len(s) > Len(stack) THEN "case"
                          ELSE "body"
       [] f.k = "select" -> IF J.stmts[f.s].many THEN "selmany" ELSE "selone"
       [] f.k = "rv" -> "RequireVersions"
       [] f.k = "term" -> IF Kind = "cancel" THEN "cancel" ELSE "term"
       [] OTHER -> f.k

(* -------------------------------- operations -------------------------------- *)
Reject(what) ==
  /\ end' = <<Event("bad", "", <<>>, <<>>), what, op>>
  /\ UNCHANGED <<j, stack, st, pos, plan, out, saved, fuel, op, shown, hist>>

Result(k, s, state) ==
  LET f == s[Len(s)]
  IN [k |-> k, s |-> Snap(state, J),
      w |-> IF k = "term" THEN f.why ELSE "",
      m |-> IF k \in {"term", "cancel"} THEN f.msg
            ELSE IF k = "RequireVersions" THEN f.args
            ELSE Void]
ResultOk(m, r) == m.k = r.k /\ SnapMatch(m.s, r.s) /\ m.w = r.w /\ m.m = r.m

(* The operation ends with the context [s, state] shown as k.               *)
Finish(k, s, state, n) ==
  LET m == Result(k, s, state)
  IN IF pos + n # Op.n \/ ~ResultOk(m, Op.r) THEN Reject(m)
     ELSE /\ hist' = Append(hist, [stack |-> s, st |-> state, shown |-> k])
          /\ op' = op + 1
          /\ shown' = ""
          /\ stack' = s /\ st' = state /\ pos' = pos + n
          /\ UNCHANGED <<j, plan, out, saved, end, fuel>>
(* It fails: the error, or the abort, comes out of the call.                *)
Raises(x, n) ==
  LET m == Event("error", x.cls, <<IF x.line = -1 THEN <<>> ELSE VInt(x.line), x.nm>>, Op.r.s)
  IN IF pos + n # Op.n \/ Op.r.k # "raise" \/ ~EvMatch(m, [k |-> "error", n |-> Op.r.n, a |-> Op.r.a, s |-> Op.r.s]) THEN Reject(m)
     ELSE /\ op' = op + 1
          /\ shown' = ""
          /\ pos' = pos + n
          /\ UNCHANGED <<j, stack, st, plan, out, saved, end, fuel, hist>>
GoOn(k, s, state, n) ==
  /\ shown' = k /\ stack' = s /\ st' = state /\ pos' = pos + n
  /\ fuel' = fuel - 1
  /\ UNCHANGED <<j, plan, out, saved, end, op, hist>>
(* Whether the contexts that look for the next case are given out one by one   *)
(* is not observable in an execution: those that the walk did not see are     *)
(* passed by.                                                                 *)
PassedBy(k) == Op.u = "exec" /\ k = "cases" /\ Op.r.k # "cases"
Reached(k, s, state, n) ==
  IF ~PassedBy(k) /\ (Op.u = "exec" \/ IsTarget(k, Op.t) \/ k = "term") THEN Finish(k, s, state, n)
  ELSE GoOn(k, s, state, n)

Active == end = <<>> /\ fuel > 0 /\ op <= Len(J.ops)

Look ==
  /\ Active /\ shown = "" /\ Op.u = "look"
  /\ LET h == IF Op.h = 0 THEN [st |-> InitState(J)] ELSE hist[Op.h]
     IN IF SnapMatch(Snap(h.st, J), Op.r.s)
        THEN /\ op' = op + 1
             /\ UNCHANGED <<vars, shown, hist>>
        ELSE Reject(Snap(h.st, J))

Start ==
  /\ Active /\ shown = "" /\ Op.u # "look"
  /\ LET h == hist[Op.h]
     IN IF Op.u = "until" /\ (IsTarget(h.shown, Op.t) \/ h.shown = "term")
        THEN Finish(h.shown, h.stack, h.st, 0)
        ELSE GoOn(h.shown, h.stack, h.st, 0)

Show ==
  /\ Active /\ shown # "" /\ Silent # ""
  /\ Reached(Silent, stack, st, 0)

Step ==
  /\ Active /\ shown # "" /\ Silent = ""
  /\ LET r == StepOf
         n == Len(r.c.out)
     IN CASE r.c.f = "ok" -> Reached(ShownAs(r.s), r.s, r.c.st, n)
          [] r.c.f = "err" -> Raises(r.c.x, n)
          [] r.c.f = "abort" -> Raises([cls |-> "abort", line |-> -1, nm |-> <<>>], n)
          [] OTHER ->         \* bad, oos, need
               /\ end' = <<Event(IF r.c.f = "oos" THEN "oos" ELSE "bad", "", <<>>, <<>>), r.c.x, op>>
               /\ UNCHANGED <<j, stack, st, pos, plan, out, saved, fuel, op, shown, hist>>

WInit ==
  /\ Init
  /\ op = 1
  /\ shown = ""
  /\ hist = <<[stack |-> stack, st |-> st, shown |-> "top"]>>
WNext == Look \/ Start \/ Show \/ Step
WSpec == WInit /\ [][WNext]_wvars

(* ---------------------------------- verdict ---------------------------------- *)
Final == end # <<>> \/ fuel <= 0 \/ op > Len(J.ops)
Verdict ==
  [id |-> J.id,
   v |-> IF end # <<>> THEN (IF end[1].k = "bad" THEN "reject" ELSE "oos")
         ELSE IF fuel <= 0 THEN "fuel"
         ELSE "accept",
   at |-> op, steps |-> J.fuel - fuel,
   want |-> IF end # <<>> /\ end[1].k = "bad" THEN <<end[2]>> ELSE <<>>]
Judge == Final => PrintT(ToJson(Verdict))

(* Every context that was ever given out stays as it was.                   *)
Immutable == [][/\ Len(hist') >= Len(hist)
                /\ \A i \in 1..Len(hist) : hist'[i] = hist[i]]_wvars
=============================================================================
