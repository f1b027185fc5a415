----------------------------- MODULE TraceCrypto -----------------------------
(* Decides whether what the real code made of keys, signatures, capsules,     *)
(* serialisations and secrets is what Crypto allows. A history has lines: for *)
(* each of its keys, the first one that is this key or its negative.          *)
EXTENDS Crypto, TLC, Json, IOUtils

Hist == ndJsonDeserialize(IOEnv.TRACE)
Verbose == "VERBOSE" \in DOMAIN IOEnv

VARIABLES h, l

T == Hist[h].events
Ev == T[l]

TInit == h \in 1 .. Len(Hist) /\ l = 1 /\ Init

Performed ==
  CASE Ev.e = "verify" -> Ev.result \in Verified(Ev.by, Ev.over, Ev.alter, Ev.with, Ev.message) /\ UNCHANGED vars
    [] Ev.e = "open" -> Ev.result \in Opened(Ev.by, Ev.over, Ev.alter, Ev.with) /\ UNCHANGED vars
    [] Ev.e = "read" -> Ev.result \in Read(Ev.alter) /\ UNCHANGED vars
    [] Ev.e = "equal" -> Ev.result = Equal(Ev.a, Ev.b) /\ Ev.hash = Equal(Ev.a, Ev.b) /\ UNCHANGED vars
    [] Ev.e = "share" -> Share(Hist[h].lines, Ev.a, Ev.b, Ev.salt, Ev.value)
    [] Ev.e = "fresh" -> Fresh(Ev.kind, Ev.low, Ev.value)

TNext == /\ l <= Len(T)
         /\ Performed
         /\ l' = l + 1
         /\ h' = h

TSpec == TInit /\ [][TNext]_<<h, l, vars>>

Report == /\ l > Len(T) => PrintT(<<"ACCEPTED", Hist[h].id>>)
          /\ Verbose => PrintT(<<"AT", Hist[h].id, l>>)
=============================================================================
