------------------------------- MODULE Lookup -------------------------------
(* A client searches for another one through the network, beginning at Start, *)
(* the server it is connected to. net says how each address answers:          *)
(*   local, remote   with a right record of the client searched for           *)
(*   hint            with the addresses (to) of other servers                 *)
(*   down            not at all                                               *)
(*   garbage         with something that is no answer                         *)
(*   error           with an error                                            *)
(*   unsigned        with anything, without a valid proof                     *)
(*   wrong           with a record that isn't right: of another client or     *)
(*                   type, or without a valid certificate for its server      *)
EXTENDS Naturals, FiniteSets

CONSTANT Start

Finding == {"local", "remote"}

VARIABLES net, known, asked, result

lookupVars == <<net, known, asked, result>>

Open == [is |-> "open", at |-> 0]
Nothing == [is |-> "none", at |-> 0]
Failed == [is |-> "error", at |-> 0]
FoundAt(a) == [is |-> "found", at |-> a]

Begin(n) == /\ net = n
            /\ known = {Start}
            /\ asked = {}
            /\ result = Open

\* What asking an address can end with. Without the first answer there is nothing to
\* search in; whether garbage instead of it is an error is left open.
Ends(a) ==
  CASE net[a].kind \in Finding -> {FoundAt(a)}
    [] a = Start /\ net[a].kind = "down" -> {Failed}
    [] a = Start /\ net[a].kind = "garbage" -> {Open, Failed}
    [] OTHER -> {Open}

Ask(a) == /\ result = Open
          /\ a \in known \ asked
          /\ asked' = asked \cup {a}
          /\ known' = known \cup (IF net[a].kind = "hint" THEN net[a].to ELSE {})
          /\ result' \in Ends(a)
          /\ UNCHANGED net

Finish == /\ result = Open
          /\ asked = known
          /\ result' = Nothing
          /\ UNCHANGED <<net, known, asked>>
=============================================================================
