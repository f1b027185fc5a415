------------------------------ MODULE MCServer ------------------------------
(* Bounded instances of Server: all the transitions are printed for replay.  *)
(* In every state there are all valid requests, and requests that are        *)
(* invalid in one way each.                                                  *)
EXTENDS Server, TLC, Json

CONSTANTS Clients,     \* keys of clients
          Other,       \* key of another server
          Self,        \* key of the server
          Ops,         \* operations in this instance
          MaxStored

VARIABLES st, op

Routes == {"connect", "disconnect", "announce", "server", "lookup", "clients", "servers", "info"}
Messages == {"send", "poll", "disconnect"}

Requesters == Clients \cup {Other}

NoCert == [by |-> 0, for |-> 0, d |-> 0, own |-> TRUE, ok |-> TRUE]

Good(k) == [by |-> k, low |-> FALSE, own |-> TRUE, ok |-> TRUE]

BadProofs(k) == {[Good(k) EXCEPT !.by = CHOOSE x \in Requesters : x # k],
                 [Good(k) EXCEPT !.low = TRUE],
                 [Good(k) EXCEPT !.own = FALSE],
                 [Good(k) EXCEPT !.ok = FALSE]}

GoodCert(k, server, d) == [by |-> k, for |-> server, d |-> d, own |-> TRUE, ok |-> TRUE]

BadCerts(k, server, d) == {[GoodCert(k, server, d) EXCEPT !.by = CHOOSE x \in Requesters : x # k],
                           [GoodCert(k, server, d) EXCEPT !.for = CHOOSE x \in {Self, Other} : x # server],
                           [GoodCert(k, server, d) EXCEPT !.own = FALSE],
                           [GoodCert(k, server, d) EXCEPT !.ok = FALSE]}

Blank == [op |-> "", key |-> 0, proof |-> Good(0), cert |-> NoCert, who |-> 0, sender |-> 0,
          srv |-> 0, ty |-> 0, v |-> 0, c |-> 1, m |-> 0, limit |-> NoLimit]

From(o, k) == [Blank EXCEPT !.op = o, !.key = k, !.proof = Good(k)]

\* Requests that are all right.
Connects == {[From("connect", k) EXCEPT !.ty = ty, !.v = ty, !.cert = GoodCert(k, Self, 1)] : k \in Clients, ty \in {1, 2}}
Disconnects == {From("disconnect", k) : k \in Requesters}
Announces == {[From("announce", k) EXCEPT !.who = who, !.ty = d, !.v = d, !.srv = IF d = 1 THEN Other ELSE Self,
                                          !.cert = GoodCert(who, IF d = 1 THEN Other ELSE Self, d)] :
                k \in Requesters, who \in Clients, d \in {1, 2}}
ServerAnnounces == {[From("server", k) EXCEPT !.who = Other, !.v = v] : k \in Requesters, v \in {1, 2}}
Lookups == {[From("lookup", k) EXCEPT !.who = who, !.ty = ty] : k \in Requesters, who \in Clients, ty \in 0 .. 2}
Sends == {[From("send", k) EXCEPT !.who = who, !.sender = k, !.c = c, !.m = 1] : k \in Clients, who \in Clients, c \in Channels}
Polls == {[From("poll", k) EXCEPT !.c = c, !.limit = limit] : k \in Clients, c \in Channels, limit \in {NoLimit, 1}}
Lists == {[Blank EXCEPT !.op = o] : o \in Open}

Right == {q \in Connects \cup Disconnects \cup Announces \cup ServerAnnounces \cup Lookups \cup Sends \cup Polls \cup Lists : q.op \in Ops}

\* Requests with one thing wrong.
Wrong ==
  UNION {{[q EXCEPT !.proof = proof] : proof \in BadProofs(q.key)} : q \in {q \in Right : q.op \notin Open}}
  \cup UNION {{[q EXCEPT !.cert = cert] : cert \in BadCerts(q.key, Self, 1)} : q \in {q \in Right : q.op = "connect"}}
  \cup UNION {{[q EXCEPT !.cert = cert] : cert \in BadCerts(q.who, q.srv, q.cert.d)} : q \in {q \in Right : q.op = "announce"}}
  \cup UNION {{[q EXCEPT !.sender = sender] : sender \in Requesters \ {q.key}} : q \in {q \in Right : q.op = "send"}}

RECURSIVE SumOf(_, _)
SumOf(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOf(f, S \ {x})

Stored == SumOf([p \in Keys \X Channels |-> Len(st.queue[p[1]][p[2]])], Keys \X Channels)

\* Which one of two equally new certificates is kept is open, so it is left to recorded histories.
Decided(q) == q.op = "announce" => st.remote[q.who] = Record(q) \/ st.remote[q.who].d # q.cert.d

Requests == {q \in Right \cup Wrong : Decided(q) /\ (q.op = "send" => Stored < MaxStored)}

Init == st = EmptyServer /\ op = [q |-> Blank, res |-> Plain]

Next ==
  \/ \E q \in Requests : \E outcome \in Outcomes(Self, st, q) :
        st' = outcome.st /\ op' = [q |-> q, res |-> outcome.res]
  \/ st' = st /\ op' = [q |-> [Blank EXCEPT !.op = "restart"], res |-> Plain]

Spec == Init /\ [][Next]_<<st, op>>

View == st

Contents == [local |-> Listing(st.local), remote |-> Listing(st.remote), servers |-> Listing(st.servers), queue |-> st.queue]
Edge == PrintT("EDGE " \o ToJson([f |-> Contents, op |-> op', t |-> Contents']))

-----------------------------------------------------------------------------
(* The guarantees, on the specification itself.                              *)

Q == op'.q
Acts == st' # st

\* Whatever a request changes, everyone concerned has signed for it.
OnlySigned ==
  [][/\ \A k \in Keys : st'.local[k] # st.local[k] =>
          /\ Q.key = k /\ ProofValid(Q)
          /\ Q.op = "connect" => CertValid(Q.cert, k, Self)
     /\ \A k \in Keys : st'.remote[k] # st.remote[k] =>
          \/ Q.op = "announce" /\ Q.who = k /\ CertValid(Q.cert, k, Q.srv) /\ ProofValid(Q)
          \/ Q.op = "disconnect" /\ Q.key = k /\ ProofValid(Q)
     /\ \A k \in Keys, c \in Channels : st'.queue[k][c] # st.queue[k][c] =>
          /\ ProofValid(Q)
          /\ Q.op = "poll" => Q.key = k /\ Q.c = c
          /\ Q.op = "send" => Q.who = k /\ Q.c = c /\ st'.queue[k][c][Len(st'.queue[k][c])].by = Q.proof.by
     /\ ~op'.res.ok => ~Acts /\ op'.res = Refused]_<<st, op>>
=============================================================================
