----------------------------- MODULE MCSession -----------------------------
(* Every operation of a client with every answer, printed for replay.         *)
EXTENDS Session, Sequences, TLC, Json

VARIABLE op

Plain == [shape |-> "ok", status |-> "success", key |-> 1, by |-> 1, over |-> "own", low |-> FALSE, ok |-> TRUE, rec |-> "right"]

Proofs == [shape : {"ok"}, status : {"success"}, key : Servers, by : Servers, over : {"own", "old", "other"}, low : {FALSE}, ok : BOOLEAN, rec : {"right"}]
NoSuccess == {[Plain EXCEPT !.shape = "broken"], [Plain EXCEPT !.status = "error"]}

Answers == Proofs \cup NoSuccess
Lookups == {[a EXCEPT !.rec = r] : a \in Proofs, r \in {"right", "key", "type", "for", "by", "sign"}} \cup NoSuccess
Infos == {[a EXCEPT !.low = l] : a \in {p \in Proofs : p.over # "old"}, l \in BOOLEAN} \cup {[Plain EXCEPT !.shape = "broken"]}

\* What follows an answer that isn't accepted makes no difference.
Pairs == {p \in Infos \X Answers : Accepted(p[1], 0) \/ p[2] = Plain}

Did(name, key, info, a, ok) == op' = [name |-> name, key |-> key, info |-> info, a |-> a, ok |-> ok]

Init == connected = Free /\ op = [name |-> "init"]

Next ==
  \/ \E i \in Infos : Stays /\ Did("info", 0, i, Plain, Accepted(i, 0))
  \/ /\ connected = Free
     /\ \/ \E p \in Pairs : Connect(p[1], p[2]) /\ Did("connect", 0, p[1], p[2], Accepted(p[1], 0) /\ Accepted(p[2], p[1].key))
        \/ \E k \in Servers, a \in Answers : ConnectTo(k, a) /\ Did("connectto", k, Plain, a, Accepted(a, k))
  \/ /\ connected # Free
     /\ \/ \E a \in Answers : \/ Disconnect(a) /\ Did("disconnect", connected, Plain, a, Accepted(a, connected))
                              \/ Stays /\ Did("poll", connected, Plain, a, Accepted(a, connected))
                              \/ Stays /\ Did("announce", connected, Plain, a, Accepted(a, 0))
                              \/ Stays /\ Did("send", connected, Plain, a, Accepted(a, 0))
        \/ \E a \in Lookups : Stays /\ Did("lookup", connected, Plain, a, Accepted(a, 0) /\ a.rec = "right")

Spec == Init /\ [][Next]_<<connected, op>>

View == connected
Edge == PrintT("EDGE " \o ToJson([f |-> connected, op |-> op', t |-> connected']))

\* A client is only ever connected to a server that has signed for it.
Authentic == [][connected' # connected /\ connected' # Free => op'.a.by = connected' /\ op'.a.over = "own"]_<<connected, op>>
=============================================================================
