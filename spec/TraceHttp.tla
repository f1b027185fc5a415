------------------------------ MODULE TraceHttp ------------------------------
(* Decides whether what was seen at a real HTTP server and client are         *)
(* behaviours of Http. Events are                                             *)
(*   send     i, kind, body, how far (all of it, or part), port               *)
(*   rest     i                                                               *)
(*   reach    t, handler, body, port: the t-th run of a handler has begun     *)
(*   reply    t, outcome, answer                                              *)
(*   receive  i, result, answer                                               *)
(*   drop     i                                                               *)
(*   end      everything is over                                              *)
(*   asked    way, what was asked for and what was seen of it, result, value  *)
(*   serve    whether the server could start, and whether it did              *)
EXTENDS Http, Sequences, FiniteSets, TLC, Json, IOUtils

Hist == ndJsonDeserialize(IOEnv.TRACE)
Verbose == "VERBOSE" \in DOMAIN IOEnv

VARIABLES h, l,
          reqs,  \* i, port, run and state of each request that isn't over
          lost   \* those given up: their handlers may run yet

vars == <<h, l, reqs, lost>>

T == Hist[h].events
Ev == T[l]
Is(e) == l <= Len(T) /\ Ev.e = e /\ l' = l + 1 /\ h' = h

TInit == h \in 1 .. Len(Hist) /\ l = 1 /\ reqs = {} /\ lost = {}

Send == /\ Is("send")
        /\ reqs' = reqs \cup {[i |-> Ev.i, port |-> Ev.port, t |-> 0, st |-> IF Ev.far = "all" THEN New(Ev.kind, Ev.body) ELSE Unfinished(Ev.kind, Ev.body)]}
        /\ lost' = lost

Changed(r, st) == (reqs \ {r}) \cup {[r EXCEPT !.st = st]}

TRest == /\ Is("rest")
         /\ \E r \in reqs : r.i = Ev.i /\ r.st.phase = "part" /\ reqs' = Changed(r, Rest(r.st))
         /\ lost' = lost

Fits(r) == CanReach(r.st, Ev.handler, Ev.body) /\ r.port \in {0, Ev.port}

TReach == /\ Is("reach")
          /\ \/ /\ \E r \in reqs : Fits(r) /\ reqs' = (reqs \ {r}) \cup {[r EXCEPT !.t = Ev.t, !.st = Reach(r.st)]}
                /\ lost' = lost
             \/ /\ \E r \in lost : Fits(r) /\ lost' = (lost \ {r}) \cup {[r EXCEPT !.t = Ev.t, !.st = Reach(r.st)]}
                /\ reqs' = reqs

TReply == /\ Is("reply")
          /\ \/ /\ \E r \in reqs : r.t = Ev.t /\ r.st.phase = "reached" /\ reqs' = Changed(r, Answer(r.st, Ev.outcome, Ev.answer))
                /\ lost' = lost
             \/ /\ \E r \in lost : r.t = Ev.t /\ r.st.phase = "reached"
                /\ UNCHANGED <<reqs, lost>>

TReceive == /\ Is("receive")
            /\ \E r \in reqs : r.i = Ev.i /\ CanReceive(r.st, Ev.result, Ev.answer) /\ reqs' = reqs \ {r}
            /\ lost' = lost

Drop == /\ Is("drop")
        /\ \E r \in reqs : r.i = Ev.i /\ reqs' = reqs \ {r} /\ lost' = lost \cup {r}

End == Is("end") /\ reqs = {} /\ UNCHANGED <<reqs, lost>>

Asked == /\ Is("asked")
         /\ Ev.result \in ClientReports(Ev.way)
         /\ Ev.result = "value" => Ev.value = Ev.answer
         /\ Seen(Ev.way) => Ev.seen >= 1 /\ Ev.asked = Ev.saw
         /\ ~Seen(Ev.way) => Ev.seen = 0
         /\ UNCHANGED <<reqs, lost>>

Serve == Is("serve") /\ (Ev.started <=> Ev.can) /\ UNCHANGED <<reqs, lost>>

TNext == Send \/ TRest \/ TReach \/ TReply \/ TReceive \/ Drop \/ End \/ Asked \/ Serve

TSpec == TInit /\ [][TNext]_vars

Report == /\ l > Len(T) => PrintT(<<"ACCEPTED", Hist[h].id>>)
          /\ Verbose => PrintT(<<"AT", Hist[h].id, l>>)
=============================================================================
