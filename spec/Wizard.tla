------------------------------- MODULE Wizard -------------------------------
(* The BAIN Wizard interpreter as a state machine: one step executes the    *)
(* innermost frame of the stack (a statement of a body, the test of a loop, *)
(* a prompt, a case label, a termination), calls the environment zero or    *)
(* more times and yields the next stack and state. A step that fails, is    *)
(* aborted or rewound never changes the state of the context it started     *)
(* from.                                                                    *)
(*                                                                          *)
(* The environment (user, mod manager) answers callbacks; plan is the       *)
(* sequence of its answers. In a generated run the plan grows by all the    *)
(* answers that the job permits; in a recorded trace it is the recorded one *)
(* and each callback is compared with the recorded one as it is made.       *)
EXTENDS WExpr, Json, IOUtils

(* The jobs of this run, read once from a file.                             *)
Jobs == JsonDeserialize(IOEnv.WIZ_JOBS)

VARIABLES
  j,        \* index of the job
  stack,    \* frames, innermost last
  st,       \* state of the current context
  pos,      \* number of callbacks made so far
  plan,     \* answers of the environment so far (generated runs)
  out,      \* callbacks so far (generated runs)
  saved,    \* saved[i] = the context that was current at the i-th callback
  end,      \* <<>>, or << final event >>
  fuel      \* steps left
vars == <<j, stack, st, pos, plan, out, saved, end, fuel>>

J == Jobs[j]

(* ------------------------------ installer ------------------------------ *)
IsPlugin(t) == \E s \in {<<46, 101, 115, 112>>, <<46, 101, 115, 109>>, <<46, 101, 115, 108>>} : EndsWith(t, s)
NotNul(t) == t # <<0>>
PluginsOf(pkg) ==
  SelectSeq([i \in 1..Len(pkg.files) |-> IF IsPlugin(pkg.files[i]) THEN BaseName(pkg.files[i]) ELSE <<0>>],
            NotNul)
HasName(s, t) == \E i \in 1..Len(s) : SameName(s[i], t)
RECURSIVE AddNames(_, _)
AddNames(s, ts) ==      \* append the names of ts that s does not have yet
  IF ts = <<>> THEN s
  ELSE AddNames(IF HasName(s, ts[1]) THEN s ELSE Append(s, ts[1]), Tail(ts))
RECURSIVE PluginsOfAll(_, _)
PluginsOfAll(pkgs, s) ==
  IF pkgs = <<>> THEN s ELSE PluginsOfAll(Tail(pkgs), AddNames(s, PluginsOf(pkgs[1])))
RemoveName(s, t) == LET Other(u) == ~SameName(u, t) IN SelectSeq(s, Other)
FirstIndex(s, t) == SetMin({i \in 1..Len(s) : SameName(s[i], t)})

(* -------------------------------- keywords ------------------------------- *)
Canonical(k) ==
  CASE k = "SelectEspm" -> "SelectPlugin"
    [] k = "DeSelectEspm" -> "DeSelectPlugin"
    [] k = "SelectAllEspms" -> "SelectAllPlugins"
    [] k = "DeSelectAllEspms" -> "DeSelectAllPlugins"
    [] k = "RenameEspm" -> "RenamePlugin"
    [] k = "ResetEspmName" -> "ResetPluginName"
    [] k = "ResetAllEspmNames" -> "ResetAllPluginNames"
    [] OTHER -> k
KwMin(k) ==
  CASE k \in {"SelectAll", "DeSelectAll", "SelectAllPlugins", "DeSelectAllPlugins", "ResetAllPluginNames"} -> 0
    [] k = "RenamePlugin" -> 2
    [] OTHER -> 1
KwMax(k) == IF k = "RequireVersions" THEN 4 ELSE KwMin(k)

NameArg(v, J_) == IF IsText(v) THEN TextOf(v) ELSE IF IsSubPkg(v) THEN J_.pkgs[v[2]].name ELSE <<>>
Names_(J_) == [i \in 1..Len(J_.pkgs) |-> J_.pkgs[i].name]

(* What a keyword does (nothing without an installer, but for the issue of  *)
(* a note that is not a text).                                             *)
BasicKeyword(k, vs, c) ==
  IF k = "Note" /\ ~IsText(vs[1]) THEN RaiseOrWarn(c, "NOTE", "type", <<>>) ELSE c
Keyword(k, vs, c) ==
  LET JJ == c.J
      names == Names_(JJ)
      t == IF vs = <<>> THEN <<>> ELSE NameArg(vs[1], JJ)
      allpl == PluginsOfAll(JJ.pkgs, <<>>)
  IN CASE k # "Note" /\ \E i \in 1..Len(vs) : ~(IsText(vs[i]) \/ IsSubPkg(vs[i])) -> Stop(c, "oos", 0)
       [] k = "Note" ->
            LET q == IF IsText(vs[1]) THEN c ELSE RaiseOrWarn(c, "NOTE", "type", <<>>)
                s == StrV(vs[1], JJ.pkgs)
            IN IF ~Ok(q) THEN q
               ELSE IF Failed(s) THEN Stop(q, "oos", 0)
               ELSE [q EXCEPT !.st.notes = Append(@, TextOf(s))]
       [] k = "SelectAll" ->
            [c EXCEPT !.st.sp = [i \in 1..Len(JJ.pkgs) |-> i], !.st.pl = allpl]
       [] k = "DeSelectAll" -> [c EXCEPT !.st.sp = <<>>, !.st.pl = <<>>]
       [] k = "SelectAllPlugins" ->
            [c EXCEPT !.st.pl = PluginsOfAll([i \in 1..Len(c.st.sp) |-> JJ.pkgs[c.st.sp[i]]], <<>>)]
       [] k = "DeSelectAllPlugins" -> [c EXCEPT !.st.pl = <<>>]
       [] k = "SelectSubPackage" ->
            IF ~HasName(names, t) THEN RaiseOrWarn(c, "MISSPKG", "mpkg", VText(t))
            ELSE LET i == FirstIndex(names, t)
                 IN [c EXCEPT !.st.sp = IF i \in Range(@) THEN @ ELSE Append(@, i),
                              !.st.pl = AddNames(@, PluginsOf(JJ.pkgs[i]))]
       [] k = "DeSelectSubPackage" ->
            LET Other(i) == ~SameName(names[i], t) IN [c EXCEPT !.st.sp = SelectSeq(@, Other)]
       [] k = "SelectPlugin" ->
            IF ~HasName(allpl, t) THEN RaiseOrWarn(c, "MISSPLG", "mplg", VText(t))
            ELSE [c EXCEPT !.st.pl = AddNames(@, <<allpl[FirstIndex(allpl, t)]>>)]
       [] k = "DeSelectPlugin" -> [c EXCEPT !.st.pl = RemoveName(@, t)]
       [] k = "RenamePlugin" ->
            IF ~IsText(vs[2]) THEN Stop(c, "oos", 0)
            ELSE LET Other(r) == r[1] # CaseFold(t)
                 IN [c EXCEPT !.st.ren = Append(SelectSeq(@, Other), <<CaseFold(t), TextOf(vs[2])>>)]
       [] k = "ResetPluginName" ->
            LET Other(r) == r[1] # CaseFold(t) IN [c EXCEPT !.st.ren = SelectSeq(@, Other)]
       [] k = "ResetAllPluginNames" -> [c EXCEPT !.st.ren = <<>>]

(* --------------------------------- frames -------------------------------- *)
BodyFrame(b) == [k |-> "body", b |-> b, i |-> 1]
TermFrame(why, msg) == [k |-> "term", why |-> why, msg |-> msg]
Top == stack[Len(stack)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
Push(s, f) == Append(s, f)
Replace(s, f) == [s EXCEPT ![Len(s)] = f]

(* The stack cut down to its innermost frame of one of the given kinds.     *)
RECURSIVE CutTo(_, _)
CutTo(s, kinds) ==
  IF s = <<>> \/ s[Len(s)].k \in kinds THEN s ELSE CutTo(Pop(s), kinds)

Ctx == [J |-> J, st0 |-> st, st |-> st, base |-> pos, out |-> <<>>,
        plan |-> IF J.trace THEN J.plan ELSE plan, line |-> 0, f |-> "ok", x |-> 0]
At(line) == [Ctx EXCEPT !.line = line]

S(s, c) == [s |-> s, c |-> c]      \* outcome of a step: next stack, context

(* ------------------------------- statements ------------------------------ *)
Stmt == J.stmts[J.blocks[Top.b][Top.i]]
Next_ == Replace(stack, [Top EXCEPT !.i = @ + 1])    \* the rest of the body

DoExpr == LET r == Eval(Stmt.e, At(Stmt.line)) IN S(Next_, r.c)

DoAssign ==
  LET r == Eval(Stmt.e, At(Stmt.line))
  IN S(Next_, IF Ok(r.c) THEN SetVar(r.c, Stmt.x, r.v) ELSE r.c)

DoCompound ==
  LET r == Eval(Stmt.e, At(Stmt.line))
      old == r.c.st.v[Stmt.x]
      q == Res(BinOp(Stmt.o, old, r.v, J.pkgs), r.c)
  IN S(Next_, IF ~Ok(r.c) THEN r.c
              ELSE IF old = <<>> THEN Err(r.c, "name", VText(J.names[Stmt.x]))
              ELSE IF Ok(q.c) THEN SetVar(q.c, Stmt.x, q.v) ELSE q.c)

DoKeyword ==
  LET r == EvalSeq(Stmt.args, <<>>, At(Stmt.line))
      k == Canonical(Stmt.n)
      n == Len(Stmt.args)
      V(i) == IF i > n \/ (i > 1 /\ Len(r.vs[i]) = 1) THEN Void ELSE r.vs[i]
  IN IF ~Ok(r.c) THEN S(Next_, r.c)
     ELSE IF n < KwMin(k) \/ n > KwMax(k) THEN S(Next_, Err(r.c, "type", <<>>))
     ELSE IF k = "RequireVersions" THEN
       (IF \E i \in 1..n : ~IsText(r.vs[i]) THEN S(Next_, Stop(r.c, "oos", 0))
        ELSE S(Push(Next_, [k |-> "rv", args |-> <<V(1), V(2), V(3), V(4)>>, line |-> Stmt.line]), r.c))
     ELSE S(Next_, IF J.api = "basic" THEN BasicKeyword(k, r.vs, r.c) ELSE Keyword(k, r.vs, r.c))

DoExec ==
  LET r == Eval(Stmt.args[1], At(Stmt.line))
      B == {i \in 1..Len(J.execs) : VText(J.execs[i].t) = r.v}
      b == J.execs[SetMin(B)].b
  IN IF Len(Stmt.args) # 1 THEN S(Next_, Err(At(Stmt.line), "type", <<>>))
     ELSE IF ~Ok(r.c) THEN S(Next_, r.c)
     ELSE IF ~IsText(r.v) THEN S(Next_, Err(r.c, "type", <<>>))
     ELSE IF B = {} THEN S(Next_, Stop(r.c, "oos", 0))
     ELSE IF b = 0 THEN S(Next_, Err(r.c, "parse", <<>>))
     ELSE S(Push(Next_, BodyFrame(b)), r.c)

RECURSIVE Branch(_, _)
Branch(i, c) ==      \* [b |-> block of the chosen branch (0: none), c]
  IF i > Len(Stmt.conds) THEN [b |-> Stmt.els, c |-> c]
  ELSE LET r == Eval(Stmt.conds[i].e, [c EXCEPT !.line = Stmt.conds[i].line])
       IN IF ~Ok(r.c) THEN [b |-> 0, c |-> r.c]
          ELSE IF Truth(r.v, Len(J.pkgs)) THEN [b |-> Stmt.conds[i].b, c |-> r.c]
          ELSE Branch(i + 1, r.c)
DoIf ==
  LET r == Branch(1, At(Stmt.line))
  IN S(IF r.b = 0 THEN Next_ ELSE Push(Next_, BodyFrame(r.b)), r.c)

(* Evaluate expressions that must be of a given type, checked one by one.   *)
RECURSIVE EvalTyped(_, _, _, _)
EvalTyped(es, vs, isType(_), c) ==
  IF Len(vs) = Len(es) \/ ~Ok(c) THEN [vs |-> vs, c |-> c]
  ELSE LET r == Eval(es[Len(vs) + 1], c)
       IN EvalTyped(es, Append(vs, r.v), isType,
                    IF Ok(r.c) /\ ~isType(r.v) THEN Err(r.c, "type", <<>>) ELSE r.c)

RECURSIVE RangeSeq(_, _, _)
RangeSeq(a, b, by) ==
  IF (by > 0 /\ a > b) \/ (by < 0 /\ a < b) THEN <<>> ELSE <<VInt(a)>> \o RangeSeq(a + by, b, by)

ForFrame(vals) == [k |-> "for", s |-> J.blocks[Top.b][Top.i], vals |-> vals, i |-> 1]

DoForRange ==
  LET r == EvalTyped(Stmt.args, <<>>, IsInt, At(Stmt.line))
      by == IF Len(r.vs) >= 3 THEN IntOf(r.vs[3]) ELSE 1
  IN IF ~Ok(r.c) THEN S(Next_, r.c)
     ELSE IF by = 0 THEN S(Next_, Res(ValueErr, r.c).c)
     ELSE S(Push(Next_, ForFrame(RangeSeq(IntOf(r.vs[1]), IntOf(r.vs[2]), by))), r.c)

DoForIn ==
  LET r == Eval(Stmt.e, At(Stmt.line))
      v == r.v
      t == TextOf(v)
      vals == CASE IsText(v) -> [i \in 1..Len(t) |-> <<3, t[i]>>]
                [] IsSubPkgs(v) -> [i \in 1..Len(J.pkgs) |-> SubPkg(i)]
                [] IsSubPkg(v) -> [i \in 1..Len(J.pkgs[v[2]].files) |-> VText(J.pkgs[v[2]].files[i])]
                [] OTHER -> <<>>
  IN IF ~Ok(r.c) THEN S(Next_, r.c)
     ELSE IF ~(IsText(v) \/ IsSubPkg(v) \/ IsSubPkgs(v)) THEN S(Next_, Err(r.c, "type", <<>>))
     ELSE S(Push(Next_, ForFrame(vals)), r.c)

DoWhile == S(Push(Next_, [k |-> "while", s |-> J.blocks[Top.b][Top.i]]), Ctx)

RECURSIVE EvalOptions(_, _, _)
EvalOptions(i, os, c) ==       \* options: [n, d, img, def]
  IF i > Len(Stmt.opts) \/ ~Ok(c) THEN [os |-> os, c |-> c]
  ELSE LET r == EvalTyped(Stmt.opts[i].k, <<>>, IsText, [c EXCEPT !.line = Stmt.opts[i].line])
           a == TextOf(r.vs[1])
           def == a # <<>> /\ a[1] = 124
           o == [n |-> IF def THEN Tail(a) ELSE a, d |-> TextOf(r.vs[2]),
                 img |-> IF Strip(TextOf(r.vs[3])) = <<>> THEN Void ELSE r.vs[3], def |-> def]
       IN IF ~Ok(r.c) THEN [os |-> os, c |-> r.c] ELSE EvalOptions(i + 1, Append(os, o), r.c)

DoSelect ==
  LET d == EvalTyped(<<Stmt.desc>>, <<>>, IsText, At(Stmt.line))
      q == EvalOptions(1, <<>>, d.c)
      IsDef(i) == q.os[i].def
      marked == SelectSeq([i \in 1..Len(q.os) |-> i], IsDef)
      multi == ~Stmt.many /\ Len(marked) > 1
      c == IF multi THEN RaiseOrWarn([q.c EXCEPT !.line = Stmt.line], "MULTI", "type", <<>>) ELSE q.c
      defs == IF Stmt.many THEN marked ELSE IF marked = <<>> THEN <<1>> ELSE <<marked[1]>>
  IN IF ~Ok(q.c) THEN S(Next_, q.c)
     ELSE S(Push(Next_, [k |-> "select", s |-> J.blocks[Top.b][Top.i],
                         desc |-> TextOf(d.vs[1]), os |-> q.os, defs |-> defs]), c)

DoBreak ==
  LET s == CutTo(stack, {"for", "while", "cases"})
  IN IF s = <<>> THEN S(Next_, Err(At(Stmt.line), "parse", <<>>))
     ELSE IF s[Len(s)].k = "cases" THEN S(Replace(s, [s[Len(s)] EXCEPT !.ft = FALSE]), Ctx)
     ELSE S(Pop(s), Ctx)
DoContinue ==
  LET s == CutTo(stack, {"for", "while"})
  IN IF s = <<>> THEN S(Next_, Err(At(Stmt.line), "parse", <<>>)) ELSE S(s, Ctx)

DoReturn == S(Push(Next_, TermFrame("return", Void)), Ctx)
DoCancel ==
  LET r == EvalTyped(Stmt.args, <<>>, IsText, At(Stmt.line))
  IN S(Push(Next_, TermFrame("cancel", IF r.vs = <<>> THEN Void ELSE r.vs[1])), r.c)

DoBroken == S(Next_, Err(At(Stmt.line), "parse", <<>>))

(* --------------------------- frames being executed --------------------------- *)
DoBodyEnd == S(IF Len(stack) = 1 THEN Push(stack, TermFrame("end", Void)) ELSE Pop(stack), Ctx)

FStmt == J.stmts[Top.s]

DoForIter ==
  IF Top.i > Len(Top.vals) THEN S(Pop(stack), Ctx)
  ELSE S(Push(Replace(stack, [Top EXCEPT !.i = @ + 1]), BodyFrame(FStmt.b)),
         SetVar(Ctx, FStmt.x, Top.vals[Top.i]))

DoWhileTest ==
  LET r == Eval(FStmt.e, At(FStmt.line))
  IN IF Ok(r.c) /\ Truth(r.v, Len(J.pkgs)) THEN S(Push(stack, BodyFrame(FStmt.b)), r.c)
     ELSE S(Pop(stack), r.c)

OptionArgs(o) == <<VText(o.n), VText(o.d), o.img>>
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flatten(Tail(ss))
PromptEvent ==
  Event("prompt", IF FStmt.many THEN "selectMany" ELSE "selectOne",
        <<VText(Top.desc), VInt(Len(Top.os))>>
          \o Flatten([i \in 1..Len(Top.os) |-> OptionArgs(Top.os[i])])
          \o Flatten([i \in 1..Len(Top.defs) |-> OptionArgs(Top.os[Top.defs[i]])]),
        Snap(st, J))
(* The next case of the cases frame f on top of s0.                         *)
CaseStep(s0, f, c) ==
  IF f.found /\ ~J.stmts[f.s].many /\ ~f.ft THEN S(s0, c)
  ELSE IF f.i <= Len(J.stmts[f.s].cases) THEN
    LET cs == J.stmts[f.s].cases[f.i]
        r == EvalTyped(<<cs.e>>, <<>>, IsText, [c EXCEPT !.line = cs.line])
        run == f.ft \/ TextOf(r.vs[1]) \in Range(f.sel)
        g == [f EXCEPT !.i = @ + 1, !.found = @ \/ run, !.ft = @ \/ run]
    IN IF ~Ok(r.c) THEN S(s0, r.c)
       ELSE S(IF run THEN Push(Push(s0, g), BodyFrame(cs.b)) ELSE Push(s0, g), r.c)
  ELSE IF J.stmts[f.s].default # 0 /\ (f.ft \/ ~f.found) THEN
    S(Push(Push(s0, [f EXCEPT !.found = TRUE, !.ft = FALSE]), BodyFrame(J.stmts[f.s].default)), c)
  ELSE S(s0, c)

DoPrompt ==          \* the answer: indexes of the chosen options
  LET q == Callback(Ctx, PromptEvent)
      sel == [i \in 1..Len(q.r.v) |-> Top.os[q.r.v[i]].n]
  IN S(IF Ok(q.c)
       THEN Replace(stack, [k |-> "cases", s |-> Top.s, sel |-> sel, i |-> 1, found |-> FALSE, ft |-> FALSE])
       ELSE stack, q.c)

DoCase == CaseStep(Pop(stack), Top, Ctx)

DoRequire ==         \* only a runner has somebody to tell
  LET q == IF J.api # "run" THEN [c |-> Ctx]
           ELSE Callback(Ctx, Event("require", "requiresVersions", Top.args, Snap(st, J)))
  IN S(Pop(stack), q.c)

(* ------------------------- end of a step, callbacks ------------------------- *)
Ended(status, s) == <<Event("end", status, <<>>, Snap(s, J))>>
O(s, state, c, e) == [s |-> s, st |-> state, c |-> c, e |-> e]
Context(h) == IF h > pos THEN [stack |-> stack, st |-> st] ELSE saved[h]

(* In a trace recorded while stepping by hand the driver can go on from a   *)
(* saved context after any step that made callbacks (J.jumps), and looks    *)
(* again at the states of earlier contexts (the observations of the events: *)
(* handle 0 is the state passed in by the caller).                          *)
Jump(n) == IF J.trace /\ n > pos /\ n <= Len(J.jumps) THEN J.jumps[n] ELSE 0
InitState(JJ) ==
  [v |-> JJ.init.v, sp |-> JJ.init.sp, pl |-> JJ.init.pl, ren |-> JJ.init.ren, notes |-> JJ.init.notes,
   td |-> JJ.init.td, tm |-> JJ.init.tm]
ObsOk(e, n) ==
  \A i \in 1..Len(e.o) :
    LET h == e.o[i].h
    IN SnapMatch(Snap(IF h = 0 THEN InitState(J) ELSE IF h > pos THEN st ELSE saved[h].st, J), e.o[i].s)
BadObs(n, e) ==
  IF ~J.trace \/ ~J.rw THEN {}
  ELSE {i \in (pos + 1)..Min2(n + Len(e), Len(J.events)) : ~ObsOk(J.events[i], n)}

Rewound(h, c) == O(Context(h).stack, Context(h).st, c, <<>>)

(* abort(): cancel() decides, the current context is unchanged.             *)
Aborted(c) ==
  LET q == Callback([c EXCEPT !.f = "ok"], Event("cancel", "cancel", <<Void>>, Snap(st, J)))
  IN CASE q.c.f \in {"need", "bad"} -> O(stack, st, q.c, <<>>)
       [] q.c.f = "rewind" -> Rewound(q.c.x, q.c)
       [] q.c.f = "ok" /\ q.r.v[2] = 1 -> O(stack, st, q.c, Ended("CANCEL", st))
       [] OTHER -> O(stack, st, q.c, <<>>)

(* error() is told once; if it returns the run ends in the current state.   *)
Failed_(c) ==
  LET x == c.x
      q == Callback([c EXCEPT !.f = "ok"],
                    Event("error", x.cls, <<IF x.line = -1 THEN <<>> ELSE VInt(x.line), x.nm>>, Snap(st, J)))
  IN CASE q.c.f \in {"need", "bad"} -> O(stack, st, q.c, <<>>)
       [] q.c.f = "rewind" -> Rewound(q.c.x, q.c)
       [] q.c.f = "abort" -> Aborted(q.c)
       [] q.c.f = "err" -> O(stack, st, q.c, <<Event("end", "RAISED", <<q.c.x.nm>>, Snap(st, J))>>)
       [] q.c.f = "default" -> O(stack, st, q.c, <<Event("end", "RAISED", <<VBool(TRUE)>>, Snap(st, J))>>)
       [] OTHER -> O(stack, st, q.c, Ended("ERROR", st))

Terminate ==
  LET cancel == Top.why = "cancel"
      q == Callback(Ctx, IF cancel THEN Event("cancel", "cancel", <<Top.msg>>, Snap(st, J))
                         ELSE Event("complete", "complete", <<>>, Snap(st, J)))
      status == IF cancel THEN "CANCEL" ELSE IF Top.why = "return" THEN "RETURN" ELSE "COMPLETE"
  IN IF q.c.f # "ok" THEN S(stack, q.c)
     ELSE IF q.r.v[2] = 1 \/ Top.why = "end"
     THEN S(stack, [q.c EXCEPT !.f = "end", !.x = status])
     ELSE S(Pop(stack), q.c)

Outcome(r) ==
  CASE r.c.f = "ok" -> O(r.s, r.c.st, r.c, <<>>)
    [] r.c.f = "err" -> Failed_(r.c)
    [] r.c.f = "abort" -> Aborted(r.c)
    [] r.c.f = "rewind" -> Rewound(r.c.x, r.c)
    [] r.c.f = "end" -> O(r.s, st, r.c, Ended(r.c.x, st))
    [] OTHER -> O(stack, st, r.c, <<>>)        \* need, bad, oos

(* ------------------- the environment of generated runs ------------------- *)
(* J.env: rets (values of the functions by name, "*" for the others, the    *)
(* first one is the plain one), budget (answers other than plain ones),     *)
(* kinds (which of abort, rewind, raise, decline), maxplan (number of       *)
(* answers that are chosen freely).                                         *)
Resp(r, v, h) == [r |-> r, v |-> v, h |-> h]
Odd(p) == p.r # "ret" \/ p.h = 1
OddUsed == Cardinality({i \in 1..Len(plan) : Odd(plan[i])})
Subseqs(n) == {SelectSeq([i \in 1..n |-> i], LAMBDA i : i \in X) : X \in SUBSET (1..n)}
RetsOf(n) == IF n \in DOMAIN J.env.rets THEN J.env.rets[n] ELSE J.env.rets["*"]

Plain(ev, free) ==
  CASE ev.k = "fn" -> {Resp("ret", v, 0) : v \in IF free THEN Range(RetsOf(ev.n)) ELSE {RetsOf(ev.n)[1]}}
    [] ev.n = "selectOne" -> {Resp("ret", <<i>>, 0) : i \in IF free THEN 1..ev.a[2][2] ELSE {1}}
    [] ev.n = "selectMany" -> {Resp("ret", v, 0) : v \in IF free THEN Subseqs(ev.a[2][2]) ELSE {<<>>}}
    [] ev.k \in {"cancel", "complete"} -> {Resp("ret", VBool(TRUE), 0)}
    [] OTHER -> {Resp("ret", Void, 0)}
(* A rewind answers an event that a plain answer of the same kind would go  *)
(* on from: the handles are all the callbacks so far, this one included.    *)
OddAnswers(ev) ==
  IF OddUsed >= J.env.budget THEN {}
  ELSE (IF "decline" \in Range(J.env.kinds) /\ ev.k \in {"cancel", "complete"}
        THEN {Resp("ret", VBool(FALSE), 1)} ELSE {})
    \cup (IF "abort" \in Range(J.env.kinds) /\ ev.k # "cancel" THEN {Resp("abort", Void, 0)} ELSE {})
    \cup (IF "raise" \in Range(J.env.kinds) /\ ev.k # "cancel" THEN {Resp("raise", VInt(Len(plan) + 1), 0)} ELSE {})
    \cup (IF "rewind" \in Range(J.env.kinds)
          THEN {Resp("rewind", Void, h) : h \in 1..(Len(plan) + 1)} ELSE {})
Choices(ev) ==
  LET free == Len(plan) < J.env.maxplan
  IN Plain(ev, free) \cup (IF free THEN OddAnswers(ev) ELSE {})

(* -------------------------------- actions -------------------------------- *)
Report(what, c) ==
  PrintT("@@" \o ToString([job |-> J.id, v |-> what, at |-> c.base + Len(c.out)]))

Commit(r) ==
  LET o == Outcome(r)
      n == pos + Len(o.c.out)
  IN CASE o.c.f = "need" ->
            /\ ~J.trace
            /\ \E p \in Choices(o.c.x) : plan' = Append(plan, p)
            /\ UNCHANGED <<j, stack, st, pos, out, saved, end, fuel>>
       [] o.c.f \in {"bad", "oos"} ->
            /\ end' = <<Event(o.c.f, "", <<>>, <<>>), o.c.x, n>>
            /\ UNCHANGED <<j, stack, st, pos, plan, out, saved, fuel>>
       [] BadObs(n, o.e) # {} ->
            /\ end' = <<Event("bad", "", <<>>, <<>>), Event("observation", "", <<>>, <<>>), SetMin(BadObs(n, o.e))>>
            /\ UNCHANGED <<j, stack, st, pos, plan, out, saved, fuel>>
       [] OTHER ->
            /\ stack' = IF o.e = <<>> /\ Jump(n) # 0 THEN Context(Jump(n)).stack ELSE o.s
            /\ st' = IF o.e = <<>> /\ Jump(n) # 0 THEN Context(Jump(n)).st ELSE o.st
            /\ pos' = n
            /\ out' = IF J.trace THEN out ELSE out \o o.c.out \o o.e
            /\ saved' = IF J.rw THEN saved \o [i \in 1..Len(o.c.out) |-> [stack |-> stack, st |-> st]] ELSE saved
            /\ end' = o.e
            /\ fuel' = fuel - 1
            /\ UNCHANGED <<j, plan>>

Running == end = <<>> /\ fuel > 0
AtStmt(k) == Running /\ Top.k = "body" /\ Top.i <= Len(J.blocks[Top.b]) /\ Stmt.k = k
AtFrame(k) == Running /\ Top.k = k

ExprStmt == AtStmt("expr") /\ Commit(DoExpr)
Assign == AtStmt("assign") /\ Commit(DoAssign)
Compound == AtStmt("compound") /\ Commit(DoCompound)
KeywordStmt == AtStmt("kw") /\ Commit(DoKeyword)
ExecStmt == AtStmt("exec") /\ Commit(DoExec)
If == AtStmt("if") /\ Commit(DoIf)
ForRange == AtStmt("forr") /\ Commit(DoForRange)
ForIn == AtStmt("fori") /\ Commit(DoForIn)
While == AtStmt("while") /\ Commit(DoWhile)
Select == AtStmt("select") /\ Commit(DoSelect)
Break == AtStmt("break") /\ Commit(DoBreak)
Continue == AtStmt("continue") /\ Commit(DoContinue)
Return == AtStmt("return") /\ Commit(DoReturn)
Cancel == AtStmt("cancel") /\ Commit(DoCancel)
Broken == AtStmt("broken") /\ Commit(DoBroken)
BodyEnd == Running /\ Top.k = "body" /\ Top.i > Len(J.blocks[Top.b]) /\ Commit(DoBodyEnd)
ForIter == AtFrame("for") /\ Commit(DoForIter)
WhileTest == AtFrame("while") /\ Commit(DoWhileTest)
Prompt == AtFrame("select") /\ Commit(DoPrompt)
Case == AtFrame("cases") /\ Commit(DoCase)
Require == AtFrame("rv") /\ Commit(DoRequire)
Termination == AtFrame("term") /\ Commit(Terminate)

Init ==
  /\ j \in 1..Len(Jobs)
  /\ stack = <<BodyFrame(Jobs[j].root)>>
  /\ st = InitState(Jobs[j])
  /\ pos = 0
  /\ plan = <<>>
  /\ out = <<>>
  /\ saved = <<>>
  /\ end = <<>>
  /\ fuel = Jobs[j].fuel

Next ==
  \/ ExprStmt \/ Assign \/ Compound \/ KeywordStmt \/ ExecStmt
  \/ If \/ ForRange \/ ForIn \/ While \/ Select
  \/ Break \/ Continue \/ Return \/ Cancel \/ Broken
  \/ BodyEnd \/ ForIter \/ WhileTest \/ Prompt \/ Case \/ Require \/ Termination

Spec == Init /\ [][Next]_vars
=============================================================================
