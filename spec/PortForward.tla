---------------------------- MODULE PortForward ----------------------------
(* A port forwarder and the gateway that it asks. A mapping is a port and TCP *)
(* or UDP. While an operation runs, the gateway refuses the requests for some *)
(* mappings (fail); tried are the mappings the operation makes requests for.  *)
EXTENDS Naturals

VARIABLES held,       \* mappings the gateway holds since it granted them
          remembered  \* mappings the forwarder would close

portVars == <<held, remembered>>

Parts(port, proto) == IF proto = "Both" THEN {<<port, "TCP">>, <<port, "UDP">>} ELSE {<<port, proto>>}

\* An open that fails may have opened a part of what was asked.
Open(asked, fail, tried, ok) ==
  /\ tried \subseteq asked
  /\ ok = (asked \cap fail = {})
  /\ IF ok THEN tried = asked ELSE tried \cap fail # {}
  /\ held' = held \cup (tried \ fail)
  /\ remembered' = remembered \cup (tried \ fail)

\* What isn't remembered need not be asked for.
Close(asked, fail, tried, ok) ==
  /\ remembered \cap asked \subseteq tried
  /\ tried \subseteq asked
  /\ remembered \cap asked \cap fail # {} => ~ok
  /\ asked \cap fail = {} => ok
  /\ held' = held \ (tried \ fail)
  /\ remembered' = remembered \ (tried \ fail)

Discard(fail, tried, ok) ==
  /\ tried = remembered
  /\ ok = (tried \cap fail = {})
  /\ held' = held \ (tried \ fail)
  /\ remembered' = remembered \ (tried \ fail)

\* Mappings have a duration, and gateways restart.
Expire(lost) == held' = held \ lost /\ UNCHANGED remembered

\* Operations on the used mappings overlapped, none was refused; those of always
\* were opened but not closed. Whatever is left at the gateway is remembered.
Storm(used, always, left) ==
  /\ left \subseteq used \cup held
  /\ held \ used \subseteq left
  /\ always \subseteq left
  /\ held' = left
  /\ \E extra \in SUBSET (used \cup remembered) : remembered' = left \cup extra \cup (remembered \ used)
=============================================================================
