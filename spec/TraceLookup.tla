---------------------------- MODULE TraceLookup ----------------------------
(* Decides whether recorded searches of the real client are behaviours of     *)
(* Lookup: each asks addresses (at) of its network and returns.               *)
EXTENDS Lookup, Sequences, TLC, Json, IOUtils

Hist == ndJsonDeserialize(IOEnv.TRACE)
Verbose == "VERBOSE" \in DOMAIN IOEnv

VARIABLES h, l

vars == <<h, l, lookupVars>>

T == Hist[h].events
Ev == T[l]
Is(e) == l <= Len(T) /\ Ev.e = e /\ l' = l + 1 /\ h' = h

Network(given) == [a \in DOMAIN given |-> [kind |-> given[a].kind, to |-> {given[a].to[i] : i \in DOMAIN given[a].to}]]

TInit == /\ h \in 1 .. Len(Hist)
         /\ l = 1
         /\ Begin(Network(Hist[h].net))

TAsk == Is("ask") /\ Ask(Ev.at)

\* What was asked before decides the result, or there is nobody left to ask.
TReturn == /\ Is("ret")
           /\ \/ result # Open /\ UNCHANGED lookupVars
              \/ Finish
           /\ result' = [is |-> Ev.is, at |-> Ev.at]

TSpec == TInit /\ [][TAsk \/ TReturn]_vars

Report == /\ l > Len(T) => PrintT(<<"ACCEPTED", Hist[h].id>>)
          /\ Verbose => PrintT(<<"AT", Hist[h].id, l>>)
=============================================================================
