------------------------------ MODULE TraceWire ------------------------------
(* Decides whether the real code reads changed documents as Wire says.        *)
EXTENDS Wire, TLC, Json, IOUtils

Hist == ndJsonDeserialize(IOEnv.TRACE)
Verbose == "VERBOSE" \in DOMAIN IOEnv

VARIABLES h, l

T == Hist[h].events
Ev == T[l]

TInit == h \in 1 .. Len(Hist) /\ l = 1

Performed ==
  CASE Ev.e = "document" -> Ev.result \in Verdicts(Ev.type, {Ev.changes[i] : i \in 1 .. Len(Ev.changes)})
    [] Ev.e = "anything" -> Ev.result \in {"read", "rejected"}
    [] Ev.e = "token" -> Ev.result \in (IF Ev.whole THEN {"same"} ELSE {"rejected"})
    [] Ev.e = "plain" -> Ev.result \in {"same"}

TNext == /\ l <= Len(T)
         /\ Performed
         /\ l' = l + 1
         /\ h' = h

TSpec == TInit /\ [][TNext]_<<h, l>>

Report == /\ l > Len(T) => PrintT(<<"ACCEPTED", Hist[h].id>>)
          /\ Verbose => PrintT(<<"AT", Hist[h].id, l>>)
=============================================================================
