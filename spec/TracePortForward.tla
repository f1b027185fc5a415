-------------------------- MODULE TracePortForward --------------------------
(* Decides whether recorded histories of the real port forwarder are          *)
(* behaviours of PortForward. An event has the operation, the mappings whose  *)
(* requests the gateway refuses meanwhile, the requests that were made and    *)
(* the result.                                                                *)
EXTENDS PortForward, Sequences, TLC, Json, IOUtils

Hist == ndJsonDeserialize(IOEnv.TRACE)
Verbose == "VERBOSE" \in DOMAIN IOEnv

VARIABLES h, l

vars == <<h, l, portVars>>

T == Hist[h].events
Ev == T[l]
Is(e) == l <= Len(T) /\ Ev.e = e /\ l' = l + 1 /\ h' = h

SetOf(s) == {s[i] : i \in DOMAIN s}
Pairs(s) == {<<s[i][1], s[i][2]>> : i \in DOMAIN s}
Only(kind) == \A c \in SetOf(Ev.calls) : c.kind = kind
\* Mappings are asked for with the duration that was asked for.
Lasting == \A c \in SetOf(Ev.calls) : c.lasts = Ev.lasts

Tried == {<<c.port, c.proto>> : c \in SetOf(Ev.calls)}

TInit == h \in 1 .. Len(Hist) /\ l = 1 /\ held = {} /\ remembered = {}

TNext == \/ Is("open") /\ Only("add") /\ Lasting /\ Open(Parts(Ev.port, Ev.proto), Pairs(Ev.fail), Tried, Ev.ok)
         \/ Is("close") /\ Only("delete") /\ Close(Parts(Ev.port, Ev.proto), Pairs(Ev.fail), Tried, Ev.ok)
         \/ Is("discard") /\ Only("delete") /\ Discard(Pairs(Ev.fail), Tried, Ev.ok)
         \/ Is("expire") /\ Expire({<<Ev.port, Ev.proto>>})
         \/ Is("storm") /\ Ev.ok /\ Storm(Pairs(Ev.used), Pairs(Ev.always), Pairs(Ev.left))

TSpec == TInit /\ [][TNext]_vars

Report == /\ l > Len(T) => PrintT(<<"ACCEPTED", Hist[h].id>>)
          /\ Verbose => PrintT(<<"AT", Hist[h].id, l>>)
=============================================================================
