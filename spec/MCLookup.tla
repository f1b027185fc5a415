------------------------------ MODULE MCLookup ------------------------------
(* All networks of a few addresses: they are printed for being searched by    *)
(* the real client, and the search as specified is checked on all of them.    *)
EXTENDS Lookup, Sequences, TLC, Json

CONSTANTS Addresses, Kinds

Answers == [kind : Kinds \ {"hint"}, to : {{}}] \cup [kind : {"hint"} \cap Kinds, to : SUBSET Addresses]
Networks == [Addresses -> Answers]

Init == \E n \in Networks : Begin(n) /\ PrintT("CASE " \o ToJson(n))
Next == (\E a \in Addresses : Ask(a)) \/ Finish
Spec == Init /\ [][Next]_lookupVars /\ WF_lookupVars(Next)

-----------------------------------------------------------------------------
RECURSIVE Spread(_)
Spread(S) == LET more == S \cup UNION {net[a].to : a \in S} IN IF more = S THEN S ELSE Spread(more)

Reachable == Spread({Start})

Right == CASE result.is = "found" -> result.at \in Reachable /\ net[result.at].kind \in Finding
           [] result.is = "none" -> \A a \in Reachable : net[a].kind \notin Finding
           [] result.is = "error" -> net[Start].kind \in {"down", "garbage"}
           [] OTHER -> TRUE

Bounded == asked \subseteq known /\ known \subseteq Reachable
Once == [][Cardinality(asked') <= Cardinality(asked) + 1]_lookupVars
Ends_ == <>(result # Open)
=============================================================================
