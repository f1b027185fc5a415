---------------------------- MODULE MCTraversal ----------------------------
(* All networks of a few servers: they are printed for being traversed by the *)
(* real server, and the traversal as specified is checked on all of them.     *)
EXTENDS Traversal, Sequences, TLC, Json

CONSTANTS Key, At   \* of the records

KeyDistinct == <<1, 2, 3>>
KeyMoved == <<1, 1, 2>>
AtDistinct == <<1, 2, 3>>
AtShared == <<1, 1, 2>>

Records == DOMAIN Key
Addresses == {At[r] : r \in Records}

Networks == {[key |-> Key, at |-> At, up |-> [a \in Addresses |-> a \in up], lists |-> [a \in Addresses |-> IF a \in up THEN l[a] ELSE {}]] :
                up \in SUBSET Addresses, l \in [Addresses -> SUBSET Records]}

Init == \E n \in Networks, b \in SUBSET Records :
           Begin(n, b) /\ PrintT("CASE " \o ToJson([net |-> n, before |-> b]))
Next == (\E r \in Records : Ask(r)) \/ Finish
Spec == Init /\ [][Next]_traversalVars /\ WF_traversalVars(Next)

-----------------------------------------------------------------------------
RECURSIVE Spread(_)
Spread(S) == LET more == S \cup UNION {Listed(net.at[r]) : r \in S} IN IF more = S THEN S ELSE Spread(more)

\* What is known at the end is closed: all lists of all servers in it are included.
Closed == done => known = Spread(known)
Ends == <>done
Grows == [][known \subseteq known' /\ asked \subseteq asked']_traversalVars
=============================================================================
