---------------------------- MODULE TraceAddress ----------------------------
(* Decides whether what the real code makes of addresses is what Address says. *)
EXTENDS Address, TLC, Json, IOUtils

Hist == ndJsonDeserialize(IOEnv.TRACE)
Verbose == "VERBOSE" \in DOMAIN IOEnv

VARIABLES h, l

T == Hist[h].events
Ev == T[l]

TInit == h \in 1 .. Len(Hist) /\ l = 1

TNext == /\ l <= Len(T)
         /\ Ev.e = "address"
         /\ [kind |-> Ev.kind, type |-> Ev.type, key |-> Ev.key, from |-> Ev.from] = Parse(Ev.text)
         /\ Ev.searches = Searches(Ev.text)
         /\ Ev.resolved = Resolved(Ev.text, Ev.network)
         /\ l' = l + 1
         /\ h' = h

TSpec == TInit /\ [][TNext]_<<h, l>>

Report == /\ l > Len(T) => PrintT(<<"ACCEPTED", Hist[h].id>>)
          /\ Verbose => PrintT(<<"AT", Hist[h].id, l>>)
=============================================================================
