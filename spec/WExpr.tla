------------------------------- MODULE WExpr -------------------------------
(* Evaluation of expressions. An evaluation threads a context c:            *)
(*   c.J     the job (script, packages, severities, environment, trace)     *)
(*   c.st0   the state before the current step (what context().state shows) *)
(*   c.st    the state in flight                                            *)
(*   c.base  number of callbacks made before this step                      *)
(*   c.out   callbacks made during this step                                *)
(*   c.plan  the answers of the environment, one per callback               *)
(*   c.line  line of the statement being executed                           *)
(*   c.f     "ok", or how the evaluation was interrupted:                   *)
(*           "err" (c.x: the error), "abort", "rewind" (c.x: the handle),   *)
(*           "default" (error() is not overridden: it raises the error),    *)
(*           "need" (the environment has to answer c.x first),              *)
(*           "bad" (the recorded trace shows another callback than c.x),    *)
(*           "oos" (the value is outside the model)                         *)
(* States of the interpreter:                                               *)
(*   [v: value of each variable (<<>> if unset), sp: selected sub-packages, *)
(*    pl: selected plugins, ren: <<folded name, new name>>s, notes,         *)
(*    td, tm: disabled and modified INI settings]                           *)
EXTENDS WFuncs, TLC

Issues == <<"MULTI", "NOTSET", "NONSTRCASE", "NOTE", "MISSPKG", "MISSPLG">>
IssueIndex(i) == CHOOSE k \in 1..6 : Issues[k] = i
ALLOW == 0
WARNING == 1
ERROR == 2

FoldLt(a, b) == TextLt(CaseFold(a), CaseFold(b))
Snap(st, J) ==
  [v |-> st.v,
   sp |-> SortSeq([i \in 1..Len(st.sp) |-> J.pkgs[st.sp[i]].name], FoldLt),
   pl |-> LET s == SortSeq(st.pl, FoldLt)
         IN IF J.fold THEN [i \in 1..Len(s) |-> CaseFold(s[i])] ELSE s,
   ren |-> st.ren, notes |-> st.notes, td |-> st.td, tm |-> st.tm]

Range(s) == {s[i] : i \in 1..Len(s)}

(* What the queries on the INI tweaks answer: the files that have some, in   *)
(* order and as they were spelled, and those of a file whatever its case.   *)
TweakQueries(m, q) ==
  LET files == {TextOf(t[1]) : t \in Range(m.td) \cup Range(m.tm)}
      Of(f) == LET Same(t) == Lower(TextOf(t[1])) = Lower(f)
               IN SelectSeq(m.tm, Same) \o SelectSeq(m.td, Same)
  IN /\ q.b = IF m.td = <<>> /\ m.tm = <<>> THEN 0 ELSE 1
     /\ Range(q.f) = files
     /\ \A i \in 2..Len(q.f) : TextLt(q.f[i - 1], q.f[i])
     /\ \A i \in 1..Len(q.t) : q.t[i].r = Of(q.t[i].q)

SnapMatch(m, r) ==
  /\ m.v = r.v /\ m.sp = r.sp /\ m.pl = r.pl /\ m.notes = r.notes
  /\ m.td = r.td /\ m.tm = r.tm
  /\ Len(m.ren) = Len(r.ren) /\ Range(m.ren) = Range(r.ren)
  /\ "tq" \in DOMAIN r => \A i \in 1..Len(r.tq) : TweakQueries(m, r.tq[i])

(* A callback as the model has it against the one recorded from the code:   *)
(* an empty argument of an error event is not compared, and the recorded    *)
(* state can be unknown (exec_until does not show the contexts in between). *)
Unknown(s) == s.v = <<<<99>>>>
(* A warning has a text, with the name of what it is about.                 *)
Tells(t, nm) == IsText(t) /\ (nm = <<>> \/ \E p \in 0..(Len(t) - Len(nm)) : PrefixAt(Tail(t), Tail(nm), p))
EvMatch(m, r) ==
  /\ m.k = r.k /\ m.n = r.n
  /\ Len(m.a) = Len(r.a)
  /\ \A i \in 1..Len(m.a) : m.a[i] = r.a[i] \/ (m.k = "error" /\ m.a[i] = <<>>)
                              \/ (m.k = "warning" /\ Tells(r.a[i], m.a[i]))
  /\ Unknown(r.s) \/ SnapMatch(m.s, r.s)

Ok(c) == c.f = "ok"
Stop(c, f, x) == [c EXCEPT !.f = f, !.x = x]
Err(c, cls, nm) == Stop(c, "err", [cls |-> cls, line |-> c.line, nm |-> nm])
Event(k, n, a, s) == [k |-> k, n |-> n, a |-> a, s |-> s]

(* Call the environment: event ev, answer the next element of the plan.     *)
(* Returns [r |-> answer, c |-> context].                                   *)
NoResp == [r |-> "none", v |-> <<4>>, h |-> 0]
Callback(c, ev) ==
  LET i == c.base + Len(c.out) + 1
      c1 == [c EXCEPT !.out = Append(@, ev)]
  IN IF c.J.trace /\ (i > Len(c.J.events) \/ ~EvMatch(ev, c.J.events[i]))
     THEN [r |-> NoResp, c |-> Stop(c1, "bad", ev)]
     ELSE IF i > Len(c.plan) THEN [r |-> NoResp, c |-> Stop(c1, "need", ev)]
     ELSE LET p == c.plan[i]
          IN [r |-> p,
              c |-> CASE p.r = "ret" -> c1
                      [] p.r = "abort" -> Stop(c1, "abort", 0)
                      [] p.r = "default" -> Stop(c1, "default", 0)
                      [] p.r = "rewind" -> Stop(c1, "rewind", p.h)
                      [] p.r = "raise" -> Stop(c1, "err", [cls |-> "custom", line |-> -1, nm |-> p.v])]

(* The severity of issue number k on the runner of the job after n of its   *)
(* callbacks. J.hist is what happened to the severities of all the runners  *)
(* of the process, in order: [r: runner, i: issue (0: the default), s:      *)
(* severity, at: the number of callbacks of this job made by then]; J.r is  *)
(* the runner of the job. What is set for an issue wins over the default;   *)
(* the default is WARNING until it is set.                                  *)
SeverityNow(J, k, n) ==
  LET Last(i) == SetMax({0} \cup {x \in 1..Len(J.hist) : J.hist[x].r = J.r /\ J.hist[x].i = i /\ J.hist[x].at <= n})
  IN IF Last(k) # 0 THEN J.hist[Last(k)].s
     ELSE IF Last(0) # 0 THEN J.hist[Last(0)].s
     ELSE WARNING

(* Raise, warn or ignore an issue.                                          *)
RaiseOrWarn(c, issue, cls, nm) ==
  LET s == SeverityNow(c.J, IssueIndex(issue), c.base + Len(c.out))
  IN CASE s = ERROR -> Err(c, cls, nm)
       [] s = WARNING -> Callback(c, Event("warning", "warning", <<nm>>, Snap(c.st0, c.J))).c
       [] OTHER -> c

R(v, c) == [v |-> v, c |-> c]
(* The result of an operation: a value or an error of the statement.        *)
Res(v, c) ==
  CASE v[1] >= 0 -> R(v, c)
    [] v[1] = -1 -> R(Void, Err(c, "type", <<>>))
    [] v[1] = -2 -> R(Void, Err(c, "index", VInt(v[2])))
    [] v[1] = -3 -> R(Void, Stop(c, "err", [cls |-> "ValueError", line |-> -1, nm |-> <<>>]))
    [] v[1] = -4 -> R(Void, Stop(c, "err", [cls |-> "ZeroDivisionError", line |-> -1, nm |-> <<>>]))
    [] OTHER -> R(Void, Stop(c, "oos", 0))

(* Functions of the mod manager: callback, types of the arguments ("s"      *)
(* string, "i" integer), number of required ones.                           *)
ManagerFns == {"CompareGameVersion", "CompareSEVersion", "CompareGEVersion",
  "CompareWBVersion", "GetPluginLoadOrder", "GetPluginStatus", "GetEspmStatus",
  "GetFilename", "GetFolder", "DataFileExists"}
ManagerCallback(f) ==
  CASE f = "CompareGameVersion" -> "compareGameVersion"
    [] f = "CompareSEVersion" -> "compareSEVersion"
    [] f = "CompareGEVersion" -> "compareGEVersion"
    [] f = "CompareWBVersion" -> "compareWBVersion"
    [] f = "GetPluginLoadOrder" -> "getPluginLoadOrder"
    [] f \in {"GetPluginStatus", "GetEspmStatus"} -> "getPluginStatus"
    [] f = "GetFilename" -> "getFilename"
    [] f = "GetFolder" -> "getFolder"
    [] f = "DataFileExists" -> "dataFileExists"
ManagerArgsOk(f, vs) ==
  CASE f = "DataFileExists" -> Len(vs) >= 1 /\ \A i \in 1..Len(vs) : IsText(vs[i])
    [] f = "GetPluginLoadOrder" -> Len(vs) \in 1..2 /\ IsText(vs[1]) /\ (Len(vs) = 2 => IsInt(vs[2]))
    [] OTHER -> Len(vs) = 1 /\ IsText(vs[1])
(* getPluginLoadOrder() has a documented default fallback.                  *)
ManagerArgs(f, vs) ==
  IF f = "GetPluginLoadOrder" /\ Len(vs) = 1 THEN Append(vs, VInt(-1)) ELSE vs

INIFns == {"EditINI", "DisableINILine"}

SetVar(c, x, v) == [c EXCEPT !.st.v[x] = v]
Names(J) == J.names

(* An interpreter assembled from a basic context factory (J.api = "basic")  *)
(* knows nothing about a manager or an installer.                          *)
Known(f, J) == f \in BasicFns \/ (J.api # "basic" /\ f \in ManagerFns \cup INIFns)

Call(f, vs, c) ==
  CASE f \in BasicFns -> Res(Basic(f, vs, c.J.pkgs), c)
    [] f \in ManagerFns ->
        IF ~ManagerArgsOk(f, vs) THEN R(Void, Err(c, "type", <<>>))
        ELSE LET q == Callback(c, Event("fn", ManagerCallback(f), ManagerArgs(f, vs), Snap(c.st0, c.J)))
             IN R(q.r.v, q.c)
    [] f = "DisableINILine" ->
        IF Len(vs) # 3 THEN R(Void, Err(c, "type", <<>>))
        ELSE R(Void, [c EXCEPT !.st.td = Append(@, vs)])
    [] f = "EditINI" ->
        IF Len(vs) \notin 4..5 THEN R(Void, Err(c, "type", <<>>))
        ELSE R(Void, [c EXCEPT !.st.tm = Append(@, IF Len(vs) = 5 THEN vs ELSE Append(vs, VText(<<>>)))])

RECURSIVE Eval(_, _), EvalSeq(_, _, _)

(* Evaluate es[1], ..., es[n] from left to right: [vs |-> values, c].       *)
EvalSeq(es, vs, c) ==
  IF Len(vs) = Len(es) \/ ~Ok(c) THEN [vs |-> vs, c |-> c]
  ELSE LET r == Eval(es[Len(vs) + 1], c) IN EvalSeq(es, Append(vs, r.v), r.c)

Eval(e, c) ==
  CASE e.op = "lit" -> R(e.v, c)
    [] e.op = "var" ->
        IF c.st.v[e.x] # <<>> THEN R(c.st.v[e.x], c)
        ELSE R(VInt(0), RaiseOrWarn(c, "NOTSET", "name", VText(c.J.names[e.x])))
    [] e.op \in {"inc", "dec"} ->
        IF c.st.v[e.x] = <<>> THEN R(Void, Err(c, "name", VText(c.J.names[e.x])))
        ELSE LET r == Res(IF e.op = "inc" THEN AddV(c.st.v[e.x], VInt(1)) ELSE AddV(c.st.v[e.x], VInt(-1)), c)
             IN IF Ok(r.c) THEN R(r.v, SetVar(r.c, e.x, r.v)) ELSE r
    [] e.op \in {"neg", "not"} ->
        LET r == Eval(e.k[1], c) IN IF Ok(r.c) THEN Res(UnOp(e.op, r.v, c.J.pkgs), r.c) ELSE r
    [] e.op = "slice" ->               \* e.h: which of start, end, step are there
        LET r == EvalSeq(e.k, <<>>, c)
            At(i) == IF e.h[i] = 0 THEN <<>>
                     ELSE r.vs[1 + Cardinality({j \in 1..i : e.h[j] = 1})]
        IN IF Ok(r.c) THEN Res(SliceV(r.vs[1], At(1), At(2), At(3)), r.c) ELSE R(Void, r.c)
    [] e.op = "call" ->
        IF e.n \in {"Exec", "EndExec"} THEN R(Void, Err(c, "name", <<>>))
        ELSE IF ~Known(e.n, c.J) THEN R(Void, Err(c, "name", VText(e.t)))
        ELSE LET r == EvalSeq(e.k, <<>>, c) IN IF Ok(r.c) THEN Call(e.n, r.vs, r.c) ELSE R(Void, r.c)
    [] e.op = "meth" ->
        LET r == Eval(e.k[1], c)
        IN IF ~Ok(r.c) THEN r
           ELSE IF ~HasMethod(r.v, e.n) THEN R(Void, Err(r.c, "name", VText(TypeName(r.v) \o <<46>> \o e.t)))
           ELSE LET q == EvalSeq(e.k, <<r.v>>, r.c)
                IN IF Ok(q.c) THEN Call(e.n, q.vs, q.c) ELSE R(Void, q.c)
    [] OTHER ->                        \* binary operators: no short circuit
        LET r == EvalSeq(e.k, <<>>, c)
        IN IF Ok(r.c) THEN Res(BinOp(e.op, r.vs[1], r.vs[2], c.J.pkgs), r.c) ELSE R(Void, r.c)
=============================================================================
