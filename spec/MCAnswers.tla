------------------------------ MODULE MCAnswers ------------------------------
(* All ways in which a client can be answered, printed for a real client.     *)
EXTENDS Http, Sequences, TLC, Json

VARIABLE way

Init == way \in Answers
Next == FALSE /\ UNCHANGED way
Spec == Init /\ [][Next]_way

\* A client always reports something, and never a value that no one gave.
Decided == ClientReports(way) # {} /\ (~Seen(way) => ClientReports(way) = {"error"})

Case == PrintT("CASE " \o ToJson(way))
=============================================================================
