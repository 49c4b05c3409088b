----------------------------- MODULE WizardTrace -----------------------------
(* Validation of executions recorded from the implementation. Every job of  *)
(* the batch carries the callbacks that the implementation made, with the   *)
(* answers it got, and the final status and state. The machine replays the  *)
(* answers; a callback or a final event that differs from the recorded one  *)
(* rejects the trace. One verdict is printed per job.                       *)
EXTENDS Wizard

Final == end # <<>> \/ fuel <= 0

Verdict ==
  LET n == Len(J.events)
      w == IF end = <<>> THEN "fuel"
           ELSE IF Len(end) = 3 THEN (IF end[1].k = "bad" THEN "reject" ELSE "oos")
           ELSE IF pos + 1 # n \/ ~EvMatch(end[1], J.events[n]) THEN "reject"
           ELSE "accept"
      at == IF end # <<>> /\ Len(end) = 3 THEN end[3] ELSE pos + 1
      want == IF end = <<>> THEN <<>> ELSE IF Len(end) = 3 THEN end[2] ELSE end[1]
  IN [id |-> J.id, v |-> w, at |-> at, steps |-> J.fuel - fuel,
      want |-> IF w = "reject" THEN <<want>> ELSE <<>>]

Judge == Final => PrintT(ToJson(Verdict))
=============================================================================
