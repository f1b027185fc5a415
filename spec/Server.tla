------------------------------- MODULE Server -------------------------------
(* One server as its users see it: what a request does to its routing table  *)
(* and inbox, and how it is answered. Everyone is known by a key; keys are   *)
(* numbers. Cryptography is ideal: a signature says who signed what.         *)
(*                                                                           *)
(* A request q has                                                           *)
(*   op      connect, disconnect, announce, server, lookup, send, poll       *)
(*   key     the key that the request states                                 *)
(*   proof   by: who signed, low: is the seed below 2^63, own: is it the     *)
(*           request's seed that is signed, ok: is it a signature at all     *)
(*   cert    the connection certificate in it; by: who signed it, for: the   *)
(*           server in its token, d: date, own: is it its token that is      *)
(*           signed, ok                                                      *)
(*   who     announced or looked up client, receiver or server               *)
(*   sender  key that a send request names as its sender                     *)
(*   srv     server that an announced client is said to be connected to      *)
(*   ty      type of the client, v: content of the record                    *)
(*   c       channel, m: message, limit                                      *)
EXTENDS InboxOps, RouterOps

CONSTANTS Keys, Channels

ServerOf(keys) == [local   |-> [k \in keys |-> None],
                   remote  |-> [k \in keys |-> None],
                   servers |-> [k \in keys |-> None],
                   queue   |-> [k \in keys |-> [c \in Channels |-> <<>>]]]

EmptyServer == ServerOf(Keys)

ProofValid(q) == /\ q.proof.by = q.key
                 /\ ~q.proof.low
                 /\ q.proof.own
                 /\ q.proof.ok

CertValid(cert, client, server) == /\ cert.by = client
                                   /\ cert.for = server
                                   /\ cert.own
                                   /\ cert.ok

\* Whether the server with key self acts on the request.
Valid(self, q) ==
  /\ ProofValid(q)
  /\ q.op = "connect"  => CertValid(q.cert, q.key, self)
  /\ q.op = "announce" => CertValid(q.cert, q.who, q.srv)
  /\ q.op = "send"     => q.sender = q.key

Record(q) == [v |-> q.v, d |-> q.cert.d, ty |-> q.ty]

Plain == [ok |-> TRUE, kind |-> "done", v |-> 0, recs |-> <<>>, msgs |-> <<>>, remaining |-> 0]
Refused == [Plain EXCEPT !.ok = FALSE, !.kind = "refused"]

Listing(table) == [k \in DOMAIN table |-> table[k].v]

Lookup(st, q) ==
  LET mine == Found(st.local, q.who, q.ty)
      other == Found(st.remote, q.who, q.ty) IN
  CASE mine # 0  -> [Plain EXCEPT !.kind = "local", !.v = mine]
    [] mine = 0 /\ other # 0 -> [Plain EXCEPT !.kind = "remote", !.v = other]
    [] OTHER -> [Plain EXCEPT !.kind = "hint", !.recs = Listing(st.servers)]

\* What the server may do and answer: a set of new states and answers.
Accepted(st, q) ==
  CASE q.op = "connect" ->
         {[st |-> [st EXCEPT !.local[q.key] = Record(q)], res |-> Plain]}
    [] q.op = "disconnect" ->
         {[st |-> [st EXCEPT !.local[q.key] = None, !.remote[q.key] = None, !.servers[q.key] = None], res |-> Plain]}
    [] q.op = "announce" ->
         (IF MayReplace(st.remote[q.who], Record(q))
          THEN {[st |-> [st EXCEPT !.remote[q.who] = Record(q)], res |-> Plain]} ELSE {})
         \cup (IF MayKeep(st.remote[q.who], Record(q)) THEN {[st |-> st, res |-> Plain]} ELSE {})
    [] q.op = "server" ->
         {[st |-> [st EXCEPT !.servers[q.who] = [v |-> q.v, d |-> 0, ty |-> 0]], res |-> Plain]}
    [] q.op = "lookup" ->
         {[st |-> st, res |-> Lookup(st, q)]}
    [] q.op = "send" ->
         {[st |-> [st EXCEPT !.queue[q.who][q.c] = Append(@, [m |-> q.m, by |-> q.key])], res |-> Plain]}
    [] q.op = "poll" ->
         LET queue == st.queue[q.key][q.c] IN
         {[st |-> [st EXCEPT !.queue[q.key][q.c] = Kept(@, q.limit)],
           res |-> [Plain EXCEPT !.kind = "msgs", !.msgs = Handed(queue, q.limit), !.remaining = Remaining(queue, q.limit)]]}
    [] q.op = "clients" -> {[st |-> st, res |-> [Plain EXCEPT !.kind = "clients", !.recs = Listing(st.local)]]}
    [] q.op = "servers" -> {[st |-> st, res |-> [Plain EXCEPT !.kind = "servers", !.recs = Listing(st.servers)]]}
    [] q.op = "info"    -> {[st |-> st, res |-> [Plain EXCEPT !.kind = "info"]]}

\* Listings and info need no proof.
Open == {"clients", "servers", "info"}

Outcomes(self, st, q) ==
  IF q.op \in Open \/ Valid(self, q) THEN Accepted(st, q) ELSE {[st |-> st, res |-> Refused]}
=============================================================================
