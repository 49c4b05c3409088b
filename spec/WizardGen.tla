------------------------------ MODULE WizardGen ------------------------------
(* Generated behaviours: every job is a small script, and TLC explores all   *)
(* the ways in which the environment can answer (J.env), up to maxplan       *)
(* answers, after which it gives plain ones only. The properties below are   *)
(* checked on all of these behaviours; each finished one is printed, and the *)
(* driver then gives the same answers to the implementation, whose callbacks *)
(* and final state must be those of the behaviour (WizardTrace).             *)
EXTENDS Wizard

Bound == Len(plan) <= J.env.maxplan + J.env.tail

(* ------------------------- laws of every behaviour ------------------------- *)
IsRewound == \E i \in (pos + 1)..pos' : plan[i].r = "rewind"
IsAborted == \E i \in (pos + 1)..pos' : plan[i].r = "abort"
IsFailed == \E i \in (pos + 1)..pos' : out'[i].k = "error"

(* The past is never changed: neither what was shown nor the contexts.      *)
Past == /\ Len(out') >= Len(out)
        /\ \A i \in 1..Len(out) : out'[i] = out[i]
        /\ Len(saved') >= Len(saved)
        /\ \A i \in 1..Len(saved) : saved'[i] = saved[i]
PastFixed == [][Past]_vars

(* C10: a rewind continues from exactly the context of that callback.       *)
RewindExact == [][IsRewound =>
  LET i == SetMax({n \in (pos + 1)..pos' : plan[n].r = "rewind"})
      h == plan[i].h
      c == IF h <= Len(saved) THEN saved[h] ELSE [stack |-> stack, st |-> st]
  IN stack' = c.stack /\ st' = c.st]_vars

(* C11, C12: a step that fails or is aborted leaves no trace in the state,  *)
(* a failed one tells error() once, an aborted one asks cancel() once; an   *)
(* abort that is declined goes on from the same context.                    *)
NoTrace == [][(IsFailed \/ IsAborted) /\ ~IsRewound => st' = st /\ (end' # <<>> \/ stack' = stack)]_vars
Count(kind) == Cardinality({i \in (pos + 1)..pos' : out'[i].k = kind})
ErrorOnce == [][end' = <<>> \/ Len(end') = 1 =>
                  /\ Count("error") <= 1
                  /\ (Count("error") = 1 /\ ~IsAborted /\ ~IsRewound => end' # <<>>)]_vars
AbortAsks == [][IsAborted /\ (end' = <<>> \/ Len(end') = 1) =>
                  /\ out'[pos'].k = "cancel"
                  /\ Count("cancel") = 1]_vars

(* C08: a run ends by exactly one of its causes, at its last callback.      *)
LastPlan == plan[Len(plan)]
Yes == LastPlan.r = "ret" /\ LastPlan.v = VBool(TRUE)
EndConsistent ==
  (end # <<>> /\ Len(end) = 1) =>
    LET ev == IF pos = 0 THEN end[1] ELSE out[pos]
    IN CASE end[1].n = "CANCEL" -> ev.k = "cancel" /\ Yes
         [] end[1].n = "RETURN" -> ev.k = "complete" /\ Yes
         [] end[1].n = "COMPLETE" -> ev.k = "complete" /\ LastPlan.r = "ret"
         [] end[1].n = "ERROR" -> ev.k = "error" /\ LastPlan.r = "ret"
         [] end[1].n = "RAISED" -> ev.k = "error" /\ LastPlan.r = "raise"
         [] OTHER -> FALSE
(* and asks complete() or cancel() again only if it was declined.           *)
AskedOnce ==
  \A i \in 1..Min2(pos, Len(out)) :
    (out[i].k \in {"complete", "cancel"} /\ i < pos) =>
       \/ plan[i].r # "ret"
       \/ plan[i].v = VBool(FALSE)

(* C10: what a callback sees is the context that was current.               *)
SeenIsCurrent == J.rw => \A i \in 1..Len(saved) : out[i].s = Snap(saved[i].st, J)

(* C13: the selections are sets of names that exist.                        *)
NoTwice(s) == \A a, b \in 1..Len(s) : a # b => ~SameName(s[a], s[b])
Selections ==
  /\ \A a, b \in 1..Len(st.sp) : a # b => st.sp[a] # st.sp[b]
  /\ \A a \in 1..Len(st.sp) : st.sp[a] \in 1..Len(J.pkgs)
  /\ NoTwice(st.pl)
  /\ \A a \in 1..Len(st.pl) : \E p \in 1..Len(J.pkgs) : \E f \in 1..Len(J.pkgs[p].files) :
        IsPlugin(J.pkgs[p].files[f]) /\ BaseName(J.pkgs[p].files[f]) = st.pl[a]
(* C14: one new name for a plugin; notes and tweaks only grow (rewinds apart). *)
Renames == \A a, b \in 1..Len(st.ren) : a # b => st.ren[a][1] # st.ren[b][1]
GrowOnly(s, t) == Len(t) >= Len(s) /\ SubSeq(t, 1, Len(s)) = s
Grow == [][~IsRewound => /\ GrowOnly(st.notes, st'.notes)
                         /\ GrowOnly(st.td, st'.td)
                         /\ GrowOnly(st.tm, st'.tm)]_vars

(* --------------------- declarative meaning of statements ------------------- *)
(* J.decl, if there is one, describes the only interesting statement of the *)
(* script: what it runs is stated here without any operational step.        *)
Tags == LET F(e) == e.k = "fn" /\ e.n = "getFilename"
            s == SelectSeq(out, F)
        IN [i \in 1..Len(s) |-> TextOf(s[i].a[1])]
Dec == J.decl

(* C07. labels: for each case the option that it names (0: none); brk: does *)
(* it end with Break; default: 0 none, 1 yes.                               *)
PromptAt == SetMin({x \in 1..Len(out) : out[x].k = "prompt"})
ChosenSet == Range(plan[PromptAt].v)
RECURSIVE Runs(_)
Runs(i) ==
  \/ i > 1 /\ Runs(i - 1) /\ ~Dec.brk[i - 1]
  \/ Dec.labels[i] \in ChosenSet /\ (Dec.many \/ \A m \in 1..(i - 1) : ~Runs(m))
DefaultRuns ==
  LET n == Len(Dec.labels)
  IN Dec.default = 1 /\ ((\A m \in 1..n : ~Runs(m)) \/ (n > 0 /\ Runs(n) /\ ~Dec.brk[n]))
RunCases == LET F(i) == Runs(i) IN SelectSeq([i \in 1..Len(Dec.labels) |-> i], F)
SelectMeaning ==
  Tags = [i \in 1..Len(RunCases) |-> Dec.tags[RunCases[i]]]
           \o (IF DefaultRuns THEN <<Dec.dtag>> ELSE <<>>) \o <<Dec.after>>

(* C02. The conditions are DataFileExists() calls, tags: of the branches,   *)
(* the last one for the Else branch (if has), after: of the end.            *)
CondEvents == {x \in 1..Len(out) : out[x].n = "dataFileExists"}
IfMeaning ==
  LET n == Cardinality(CondEvents)
      last == SetMax(CondEvents)
      true == plan[last].v = VBool(TRUE)
  IN /\ \A x \in CondEvents : x # last => plan[x].v # VBool(TRUE)
     /\ n <= Len(Dec.tags) - Dec.has
     /\ ~true => n = Len(Dec.tags) - Dec.has
     /\ Tags = (IF true THEN <<Dec.tags[n]>> ELSE IF Dec.has = 1 THEN <<Dec.tags[Len(Dec.tags)]>> ELSE <<>>) \o <<Dec.after>>

Done == end # <<>> /\ Len(end) = 1
Meaning ==
  Done => CASE Dec.k = "select" -> SelectMeaning
            [] Dec.k = "if" -> IfMeaning
            [] OTHER -> TRUE

(* C03: the values of a range loop.                                         *)
Steps(a, b, by) == {x \in -12..12 : \E k \in 0..24 : x = a + k * by /\ IF by > 0 THEN x <= b ELSE x >= b}
ASSUME RangeMeaning ==
  \A a, b \in -5..5, by \in {-4, -3, -2, -1, 1, 2, 3, 4} :
    LET s == RangeSeq(a, b, by)
    IN /\ {IntOf(s[i]) : i \in 1..Len(s)} = Steps(a, b, by)
       /\ \A i \in 1..Len(s) : IntOf(s[i]) = a + (i - 1) * by

(* -------------------------------- behaviours -------------------------------- *)
Final == end # <<>> \/ fuel <= 0
Behaviour ==
  [id |-> J.id, v |-> IF end = <<>> THEN "fuel" ELSE IF Len(end) = 3 THEN end[1].k ELSE "done", plan |-> plan]
Shown == Final => PrintT(ToJson(Behaviour))
=============================================================================
