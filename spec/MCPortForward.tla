--------------------------- MODULE MCPortForward ---------------------------
(* All operations in all states of a few ports, printed for being performed   *)
(* by the real forwarder.                                                     *)
EXTENDS PortForward, Sequences, TLC, Json

CONSTANTS Ports

VARIABLE op

Mappings == Ports \X {"TCP", "UDP"}

Did(name, port, proto, fail, tried, ok) == op' = [name |-> name, port |-> port, proto |-> proto, fail |-> fail, tried |-> tried, ok |-> ok]

Init == held = {} /\ remembered = {} /\ op = [name |-> "init"]

Next == \E fail \in SUBSET Mappings :
  \/ \E port \in Ports, proto \in {"TCP", "UDP", "Both"}, ok \in BOOLEAN :
        LET asked == Parts(port, proto) IN
        /\ fail \subseteq asked
        /\ \E tried \in SUBSET asked :
              \/ Open(asked, fail, tried, ok) /\ Did("open", port, proto, fail, tried, ok)
              \/ Close(asked, fail, tried, ok) /\ Did("close", port, proto, fail, tried, ok)
  \/ \E ok \in BOOLEAN : Discard(fail, remembered, ok) /\ Did("discard", 0, "Both", fail, remembered, ok)
  \/ fail = {} /\ \E m \in held : Expire({m}) /\ Did("expire", m[1], m[2], {}, {}, TRUE)

Spec == Init /\ [][Next]_<<portVars, op>>

View == portVars

\* Printed is what to do; what comes of it is for TracePortForward.
Edge == PrintT("EDGE " \o ToJson([f |-> [held |-> held, remembered |-> remembered],
                                  op |-> [name |-> op'.name, port |-> op'.port, proto |-> op'.proto, fail |-> op'.fail],
                                  t |-> [held |-> held', remembered |-> remembered']]))

Known == held \subseteq remembered

\* What success means.
Success == [][op'.ok => CASE op'.name = "open" -> Parts(op'.port, op'.proto) \subseteq held'
                          [] op'.name = "close" -> Parts(op'.port, op'.proto) \cap held' = {}
                          [] op'.name = "discard" -> held' = {}
                          [] OTHER -> TRUE]_<<portVars, op>>

\* Nothing else is ever touched.
Others == [][op'.name \in {"open", "close", "expire"} =>
               \A m \in Mappings \ Parts(op'.port, op'.proto) : (m \in held <=> m \in held') /\ (m \in remembered <=> m \in remembered')]_<<portVars, op>>

\* A refused removal is retried by whatever comes later.
Kept == [][\A m \in held : m \in held' => m \in remembered']_<<portVars, op>>
=============================================================================
