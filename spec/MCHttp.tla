------------------------------- MODULE MCHttp -------------------------------
(* Requests of all kinds on two connections: in each of the states of one,    *)
(* everything that the other can do, printed for being done to a real server. *)
EXTENDS Http, Sequences, TLC, Json

Slots == {1, 2}

VARIABLES slot, op
vars == <<slot, op>>

None == [phase |-> "over", kind |-> [method |-> "GET", route |-> "get", content |-> "none"], body |-> "", outcome |-> "", answer |-> ""]

Did(name, i, k, outcome) == op' = [name |-> name, slot |-> i, kind |-> k, outcome |-> outcome, reached |-> Fate(k) = "reached"]

Init == slot = [i \in Slots |-> None] /\ op = [name |-> "init"]

Idle(i) == slot[i].phase = "over"

\* A request that isn't for sure for the handler is over at once here.
Send(i, k) ==
  /\ Idle(i)
  /\ LET r == New(k, "") IN
     slot' = [slot EXCEPT ![i] = IF Fate(k) = "reached" THEN Reach(r) ELSE None]
  /\ Did("send", i, k, "")

Stall(i, k) ==
  /\ Idle(i)
  /\ k.method = "POST" /\ k.route \in {"post", "both"} /\ k.content \in {"valid", "junk"}
  /\ slot' = [slot EXCEPT ![i] = Unfinished(k, "")]
  /\ Did("stall", i, k, "")

Finish(i) ==
  /\ slot[i].phase = "part"
  /\ slot' = [slot EXCEPT ![i] = IF Fate(slot[i].kind) = "reached" THEN Reach(Rest(slot[i])) ELSE None]
  /\ Did("rest", i, slot[i].kind, "")

Respond(i, outcome) ==
  /\ slot[i].phase = "reached"
  /\ slot' = [slot EXCEPT ![i] = None]
  /\ Did("finish", i, slot[i].kind, outcome)

Drop(i) ==
  /\ ~Idle(i)
  /\ slot' = [slot EXCEPT ![i] = None]
  /\ Did("drop", i, slot[i].kind, "")

Next == \E i \in Slots :
  \/ \E k \in Kinds : Send(i, k) \/ Stall(i, k)
  \/ Finish(i)
  \/ \E outcome \in Outcomes : Respond(i, outcome)
  \/ Drop(i)

Spec == Init /\ [][Next]_vars

View == slot

Seen2(r) == [phase |-> r.phase, kind |-> r.kind]
Edge == PrintT("EDGE " \o ToJson([f |-> [i \in Slots |-> Seen2(slot[i])], op |-> op', t |-> [i \in Slots |-> Seen2(slot'[i])]]))

\* No state of one connection keeps the other from anything.
Independent == [][\A i \in Slots : op'.slot = i => \A j \in Slots \ {i} : slot'[j] = slot[j]]_vars
Served == \A i \in Slots : Idle(i) => \A k \in Kinds : ENABLED Send(i, k)
OnlyValid == \A i \in Slots : slot[i].phase = "reached" => Fate(slot[i].kind) # "refused" /\ Handler(slot[i].kind) # "none"
=============================================================================
