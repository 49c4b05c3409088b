------------------------------- MODULE WSource -------------------------------
(* Programs from texts: characters -> tokens -> statements and blocks, for   *)
(* the executions that are judged from the text of their script on. One      *)
(* program is printed per row; the machine (Wizard) then runs it.            *)
EXTENDS WGrammar, TLC, Json, IOUtils

Table == JsonDeserialize(IOEnv.WIZ_JOBS)
Chunk == 4

VARIABLE k
Row == Table.rows[k]
Judge == PrintT(ToJson([id |-> Row.id, p |-> ParseScript(Row.src, Table.words, Row.names, Row.execs)]))

Init == k \in {n \in 1..Len(Table.rows) : n % Chunk = 1}
Next == k < Len(Table.rows) /\ k % Chunk # 0 /\ k' = k + 1
Spec == Init /\ [][Next]_k
=============================================================================
