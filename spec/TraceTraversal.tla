--------------------------- MODULE TraceTraversal ---------------------------
(* Decides whether recorded traversals of the real server are behaviours of   *)
(* Traversal: each asks addresses (at) and ends, with the servers that are    *)
(* then in its table.                                                         *)
EXTENDS Traversal, Sequences, TLC, Json, IOUtils

Hist == ndJsonDeserialize(IOEnv.TRACE)
Verbose == "VERBOSE" \in DOMAIN IOEnv

VARIABLES h, l

vars == <<h, l, traversalVars>>

T == Hist[h].events
Ev == T[l]
Is(e) == l <= Len(T) /\ Ev.e = e /\ l' = l + 1 /\ h' = h

SetOf(s) == {s[i] : i \in DOMAIN s}
Network(n) == [key |-> n.key, at |-> n.at, up |-> n.up, lists |-> [a \in DOMAIN n.lists |-> SetOf(n.lists[a])]]

TInit == /\ h \in 1 .. Len(Hist)
         /\ l = 1
         /\ Begin(Network(Hist[h].net), SetOf(Hist[h].before))

\* Which of several records at the address it is asked for makes no difference.
TAsk == /\ Is("ask")
        /\ LET here == {r \in known \ asked : net.at[r] = Ev.at} IN
           here # {} /\ Ask(CHOOSE r \in here : TRUE)

TReturn == Is("ret") /\ Finish /\ Holds(Ev.table)

TSpec == TInit /\ [][TAsk \/ TReturn]_vars

Report == /\ l > Len(T) => PrintT(<<"ACCEPTED", Hist[h].id>>)
          /\ Verbose => PrintT(<<"AT", Hist[h].id, l>>)
=============================================================================
