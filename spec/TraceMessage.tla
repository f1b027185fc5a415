---------------------------- MODULE TraceMessage ----------------------------
(* Decides whether the real code reads messages as Message says, and hides    *)
(* what is encrypted.                                                         *)
EXTENDS Message, TLC, Json, IOUtils

Hist == ndJsonDeserialize(IOEnv.TRACE)
Verbose == "VERBOSE" \in DOMAIN IOEnv

VARIABLES h, l

T == Hist[h].events
Ev == T[l]

TInit == h \in 1 .. Len(Hist) /\ l = 1

TNext == /\ l <= Len(T)
         /\ Ev.result \in Results(Ev.content, Ev.sign, Ev.label, Ev.receiver, Ev.sender)
         /\ Hidden(Ev.content.enc, Ev.seen[1])
         /\ Hidden(Ev.sign.enc, Ev.seen[2])
         /\ l' = l + 1
         /\ h' = h

TSpec == TInit /\ [][TNext]_<<h, l>>

Report == /\ l > Len(T) => PrintT(<<"ACCEPTED", Hist[h].id>>)
          /\ Verbose => PrintT(<<"AT", Hist[h].id, l>>)
=============================================================================
