------------------------------ MODULE WSeverity ------------------------------
(* Severities of the issues, per context (a runner is one). A history is    *)
(* what was set, in order; TLC enumerates all histories up to MaxLen over   *)
(* two contexts, the default and two issues (a third one is never set), and *)
(* prints with each one the severities that result. The driver does the     *)
(* same to the implementation and compares what the issues then do.         *)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANT MaxLen

Runners == 1..2
Issues == 1..3              \* issue 3 is never set
ALLOW == 0
WARNING == 1
ERROR == 2
Severities == {ALLOW, WARNING, ERROR}

VARIABLES hist, default, own
vars == <<hist, default, own>>

Op(r, i, s) == [r |-> r, i |-> i, s |-> s]         \* i = 0: the default

Init ==
  /\ hist = <<>>
  /\ default = [r \in Runners |-> WARNING]
  /\ own = [r \in Runners |-> [i \in Issues |-> <<>>]]
SetDefault(r, s) ==
  /\ default' = [default EXCEPT ![r] = s]
  /\ hist' = Append(hist, Op(r, 0, s))
  /\ UNCHANGED own
SetIssue(r, i, s) ==
  /\ own' = [own EXCEPT ![r][i] = <<s>>]
  /\ hist' = Append(hist, Op(r, i, s))
  /\ UNCHANGED default
Next ==
  /\ Len(hist) < MaxLen
  /\ \E r \in Runners, s \in Severities : SetDefault(r, s) \/ \E i \in 1..2 : SetIssue(r, i, s)
Spec == Init /\ [][Next]_vars

Effective(r, i) == IF own[r][i] # <<>> THEN own[r][i][1] ELSE default[r]

(* The same from the history alone, as Wizard has it.                       *)
Last(h, r, i) ==
  LET X == {0} \cup {x \in 1..Len(h) : h[x].r = r /\ h[x].i = i}
  IN CHOOSE x \in X : \A y \in X : x >= y
FromHistory(h, r, i) ==
  IF Last(h, r, i) # 0 THEN h[Last(h, r, i)].s
  ELSE IF Last(h, r, 0) # 0 THEN h[Last(h, r, 0)].s
  ELSE WARNING
Same == \A r \in Runners, i \in Issues : Effective(r, i) = FromHistory(hist, r, i)
(* What happens on one context does not matter to another one.              *)
Independent ==
  \A r \in Runners, i \in Issues :
    LET Mine(o) == o.r = r IN Effective(r, i) = FromHistory(SelectSeq(hist, Mine), r, i)
(* Only what is set changes.                                                *)
OnlyThat == [][LET o == hist'[Len(hist')]
               IN \A r \in Runners, i \in Issues :
                    Effective(r, i)' # Effective(r, i) => r = o.r /\ o.i \in {0, i} /\ Effective(r, i)' = o.s]_vars

Shown == PrintT(ToJson([hist |-> hist, eff |-> [r \in Runners |-> [i \in Issues |-> Effective(r, i)]]]))
=============================================================================
