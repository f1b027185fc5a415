------------------------------ MODULE Network ------------------------------
(* Several servers and the clients that use them. Servers are those of the   *)
(* module Server; a client's operation is a sequence of requests to them.    *)
(*                                                                           *)
(* What never changes (net): host, the server that each address leads to (0: *)
(* none); key, the keys of the servers; who and ty, the keys and types of    *)
(* clients. A client is one session: several can share a key.                *)
(*                                                                           *)
(* What does (nw): sts, the states of servers; up, which of them run; conn,  *)
(* the address that each client is connected through and the date of its     *)
(* certificate.                                                              *)
(*                                                                           *)
(* An operation c has                                                        *)
(*   op     of a client s: connect, connectto, disconnect, announce, lookup, *)
(*          send, poll, info, clients, servers, tell, steal                  *)
(*          of a server n: traverse, reboot, down, up, tables, drain         *)
(*   at     address it goes to, 0: the one where client k (of type ty) is    *)
(*          found                                                            *)
(*   key    expected key of the server, or key of the server that is told of *)
(*   a      address of the server that is told of                            *)
(*   k, ty  client looked up, or whose messages are polled                   *)
(*   r      receiver, ch: channel, m: message, limit                         *)
(*   d      date of the certificate that connecting makes                    *)
(*   lossy  requests or answers may get lost                                 *)
EXTENDS Server, FiniteSets

Free == [at |-> 0, d |-> 0]

Start(net) == [sts  |-> [n \in DOMAIN net.key |-> EmptyServer],
               up   |-> [n \in DOMAIN net.key |-> TRUE],
               conn |-> [s \in DOMAIN net.who |-> Free]]

\* The running server at the address.
Host(net, nw, a) == IF a = 0 THEN 0 ELSE LET n == net.host[a] IN IF n = 0 THEN 0 ELSE IF nw.up[n] THEN n ELSE 0

-----------------------------------------------------------------------------
(* Requests.                                                                 *)

Unsigned == [op |-> "", key |-> 0, who |-> 0, sender |-> 0, srv |-> 0, ty |-> 0, v |-> 0, c |-> 1, m |-> 0, limit |-> NoLimit,
             proof |-> [by |-> 0, low |-> FALSE, own |-> TRUE, ok |-> TRUE],
             cert |-> [by |-> 0, for |-> 0, d |-> 0, own |-> TRUE, ok |-> TRUE]]

Request(op, k) == [Unsigned EXCEPT !.op = op, !.key = k, !.proof.by = k]

\* What records of a client are recognised by: its session and certificate, and the
\* address at which it's announced to be.
Local(s, d) == d * 10 + s
Remote(s, d, a) == Local(s, d) * 10 + a
AddressIn(v) == v % 10
LocalIn(v) == v \div 10

LookupRequest(net, c) == [Request("lookup", net.who[c.s]) EXCEPT !.who = c.k, !.ty = c.ty]

\* The request of operation c to the server with the given key.
RequestOf(net, nw, c, key) ==
  LET k == net.who[c.s]
      conn == nw.conn[c.s] IN
  CASE c.op \in {"connect", "connectto"} ->
         LET expected == IF c.op = "connect" THEN key ELSE c.key IN
         [Request("connect", k) EXCEPT !.ty = net.ty[c.s], !.v = Local(c.s, c.d), !.cert.by = k, !.cert.for = expected, !.cert.d = c.d]
    [] c.op = "announce" ->
         LET server == net.key[net.host[conn.at]] IN
         [Request("announce", k) EXCEPT !.who = k, !.ty = net.ty[c.s], !.v = Remote(c.s, conn.d, conn.at), !.srv = server,
                                        !.cert.by = k, !.cert.for = server, !.cert.d = conn.d]
    [] c.op = "send" -> [Request("send", k) EXCEPT !.sender = k, !.who = c.r, !.c = c.ch, !.m = c.m]
    [] c.op = "poll" -> [Request("poll", k) EXCEPT !.c = c.ch, !.limit = c.limit]
    [] c.op = "tell" -> [Request("server", k) EXCEPT !.who = c.key, !.v = c.a]
    [] c.op = "steal" -> [Request("poll", c.k) EXCEPT !.c = c.ch, !.proof.by = k]
    [] OTHER -> Request(c.op, k)

-----------------------------------------------------------------------------
(* Results.                                                                  *)

Done == [ok |-> TRUE, kind |-> "done", v |-> 0, at |-> 0, k |-> 0, recs |-> <<>>, msgs |-> <<>>, remaining |-> 0, tables |-> <<>>]
Fails(kind) == [Done EXCEPT !.ok = FALSE, !.kind = kind]
Failure == Fails("error")

Result(res) == IF res.ok THEN [Done EXCEPT !.kind = res.kind, !.v = res.v, !.recs = res.recs, !.msgs = res.msgs, !.remaining = res.remaining] ELSE Failure

NeedsConnection == {"disconnect", "announce", "lookup", "send", "poll"}
OfServers == {"traverse", "reboot", "down", "up", "tables", "drain"}

\* What becomes of the client whose request succeeded.
Connection(c, old) == CASE c.op \in {"connect", "connectto"} -> [at |-> c.at, d |-> c.d]
                        [] c.op = "disconnect" -> Free
                        [] OTHER -> old

\* The request of c to the address: new states and results.
Act(net, nw, c, a) ==
  LET n == Host(net, nw, a) IN
  IF n = 0 THEN {[nw |-> nw, res |-> Failure]}
  ELSE LET q == RequestOf(net, nw, c, net.key[n])
           after == {[nw |-> [nw EXCEPT !.sts[n] = outcome.st], res |-> Result(outcome.res)] : outcome \in Outcomes(net.key[n], nw.sts[n], q)} IN
       {[nw |-> IF x.res.ok THEN [x.nw EXCEPT !.conn[c.s] = Connection(c, @)] ELSE x.nw, res |-> x.res] : x \in after}
       \cup (IF c.lossy THEN {[nw |-> nw, res |-> Failure]} \cup {[nw |-> x.nw, res |-> Failure] : x \in after} ELSE {})

\* Records of servers that server n has.
Known(nw, n) == LET table == nw.sts[n].servers IN {<<k, table[k].v>> : k \in {k \in Keys : table[k].v # 0}}

Contents(st) == <<Listing(st.local), Listing(st.remote), Listing(st.servers)>>

-----------------------------------------------------------------------------
(* Whole operations, with nothing else going on.                             *)

AnswerAt(net, nw, c, a) == Lookup(nw.sts[Host(net, nw, a)], LookupRequest(net, c))

RECURSIVE Search(_, _, _, _)
Search(net, nw, c, S) ==
  LET hints(a) == IF Host(net, nw, a) = 0 THEN {}
                  ELSE LET answer == AnswerAt(net, nw, c, a) IN {answer.recs[k] : k \in DOMAIN answer.recs} \ {0}
      more == S \cup UNION {hints(a) : a \in S} IN
  IF more = S THEN S ELSE Search(net, nw, c, more)

FoundBy(net, a, kind, v) ==
  LET at == IF kind = "local" THEN a ELSE AddressIn(v) IN
  [Done EXCEPT !.kind = "found", !.v = IF kind = "local" THEN v ELSE LocalIn(v), !.at = at, !.k = net.key[net.host[at]]]

\* How a search for client c.k can end. Servers are asked in any order.
Searched(net, nw, c) ==
  LET first == nw.conn[c.s].at
      asked == Search(net, nw, c, {first})
      finding == {a \in asked : Host(net, nw, a) # 0 /\ AnswerAt(net, nw, c, a).kind # "hint"} IN
  IF Host(net, nw, first) = 0 THEN {Failure}
  ELSE IF finding = {} THEN {Fails("none")}
  ELSE {LET answer == AnswerAt(net, nw, c, a) IN FoundBy(net, a, answer.kind, answer.v) : a \in finding}

Searches(c) == c.op = "lookup" \/ (c.op \in {"announce", "send"} /\ c.at = 0)

RECURSIVE Spread(_, _, _)
Spread(net, nw, S) ==
  LET more == S \cup UNION {IF Host(net, nw, p[2]) = 0 THEN {} ELSE Known(nw, Host(net, nw, p[2])) : p \in S} IN
  IF more = S THEN S ELSE Spread(net, nw, more)

\* Tables of servers after a traversal: of several records of a key any one stays.
Learned(table, records) ==
  LET keys == {p[1] : p \in records} IN
  {[k \in Keys |-> IF k \in keys THEN [v |-> f[k], d |-> 0, ty |-> 0] ELSE table[k]] :
     f \in {f \in [keys -> {p[2] : p \in records}] : \A k \in keys : <<k, f[k]>> \in records}}

OfServer(net, nw, c) ==
  CASE c.op = "traverse" -> {[nw |-> [nw EXCEPT !.sts[c.n].servers = table], res |-> Done] :
                               table \in Learned(nw.sts[c.n].servers, Spread(net, nw, Known(nw, c.n)))}
    [] c.op = "reboot" -> {[nw |-> nw, res |-> Done]}
    [] c.op = "down"   -> {[nw |-> [nw EXCEPT !.up[c.n] = FALSE], res |-> Done]}
    [] c.op = "up"     -> {[nw |-> [nw EXCEPT !.up[c.n] = TRUE], res |-> Done]}
    [] c.op = "tables" -> {[nw |-> nw, res |-> [Done EXCEPT !.kind = "tables", !.tables = Contents(nw.sts[c.n])]]}
    [] c.op = "drain"  -> {[nw |-> [nw EXCEPT !.sts[c.n].queue[c.k][c.ch] = <<>>],
                            res |-> [Done EXCEPT !.kind = "msgs", !.msgs = nw.sts[c.n].queue[c.k][c.ch]]]}

Do(net, nw, c) ==
  IF c.op \in OfServers THEN OfServer(net, nw, c)
  ELSE IF c.op \in NeedsConnection /\ nw.conn[c.s].at = 0 THEN {[nw |-> nw, res |-> Fails("free")]}
  ELSE IF c.op = "lookup" THEN {[nw |-> nw, res |-> res] : res \in Searched(net, nw, c)}
  ELSE IF Searches(c) THEN UNION {Act(net, nw, c, res.at) : res \in Searched(net, nw, c)}
  ELSE Act(net, nw, c, IF c.at = 0 THEN nw.conn[c.s].at ELSE c.at)

-----------------------------------------------------------------------------
(* The steps of an operation, between which others can happen. o is how far  *)
(* it has come: ph, the phase; at, the address asked now and sub, its table  *)
(* looked at next; known, asked and kept, what it has heard of, asked and    *)
(* entered in the table; a, where its request goes; res.                     *)

Fresh == [ph |-> "new", at |-> 0, sub |-> 0, known |-> {}, asked |-> {}, kept |-> {}, a |-> 0, res |-> Done]

Ended(o, res) == [o EXCEPT !.ph = "end", !.res = res]

Begin(net, nw, c, o) ==
  IF c.op = "traverse" THEN {[nw |-> nw, o |-> [o EXCEPT !.ph = "walk", !.known = Known(nw, c.n)]]}
  ELSE IF c.op \in OfServers THEN {[nw |-> x.nw, o |-> Ended(o, x.res)] : x \in OfServer(net, nw, c)}
  ELSE IF c.op \in NeedsConnection /\ nw.conn[c.s].at = 0 THEN {[nw |-> nw, o |-> Ended(o, Fails("free"))]}
  ELSE IF Searches(c) THEN {[nw |-> nw, o |-> [o EXCEPT !.ph = "search", !.known = {nw.conn[c.s].at}]]}
  ELSE {[nw |-> nw, o |-> [o EXCEPT !.ph = "act", !.a = IF c.at = 0 THEN nw.conn[c.s].at ELSE c.at]]}

\* A search that is over with the result; its address is the one for the request.
Over(c, o, res) == IF c.op = "lookup" THEN Ended(o, res)
                   ELSE IF res.ok THEN [o EXCEPT !.ph = "act", !.a = res.at]
                   ELSE Ended(o, Failure)

Asking(net, nw, c, o) ==
  IF o.at # 0 THEN
    LET st == nw.sts[net.host[o.at]]
        table == IF o.sub = 0 THEN st.local ELSE st.remote
        v == Found(table, c.k, c.ty) IN
    IF o.sub = 2 THEN {[o EXCEPT !.at = 0, !.asked = @ \cup {o.at}, !.known = @ \cup {p[2] : p \in Known(nw, net.host[o.at])}]}
    ELSE IF v = 0 THEN {[o EXCEPT !.sub = @ + 1]}
    ELSE {Over(c, o, FoundBy(net, o.at, IF o.sub = 0 THEN "local" ELSE "remote", v))}
  ELSE IF o.known = o.asked THEN {Over(c, o, Fails("none"))}
  ELSE UNION {(IF Host(net, nw, a) # 0 THEN {[o EXCEPT !.at = a, !.sub = 0]} ELSE {})
              \cup (IF Host(net, nw, a) # 0 /\ ~c.lossy THEN {}
                    ELSE IF o.asked = {} THEN {Over(c, o, Failure)}
                    ELSE {[o EXCEPT !.asked = @ \cup {a}]}) : a \in o.known \ o.asked}

Walking(net, nw, c, o) ==
  IF o.known = o.kept /\ o.known = o.asked THEN {[nw |-> nw, o |-> Ended(o, Done)]}
  ELSE {LET n == Host(net, nw, p[2]) IN
        [nw |-> nw, o |-> [o EXCEPT !.asked = @ \cup {p}, !.known = @ \cup (IF n = 0 THEN {} ELSE Known(nw, n))]] : p \in o.known \ o.asked}
       \cup {[nw |-> [nw EXCEPT !.sts[c.n].servers[p[1]] = [v |-> p[2], d |-> 0, ty |-> 0]],
              o |-> [o EXCEPT !.kept = @ \cup {p}]] : p \in o.known \ o.kept}

Steps(net, nw, c, o) ==
  CASE o.ph = "new"    -> Begin(net, nw, c, o)
    [] o.ph = "search" -> {[nw |-> nw, o |-> next] : next \in Asking(net, nw, c, o)}
    [] o.ph = "act"    -> {[nw |-> x.nw, o |-> Ended(o, x.res)] : x \in Act(net, nw, c, o.a)}
    [] o.ph = "walk"   -> Walking(net, nw, c, o)

\* All that the steps of an operation on its own lead to.
RECURSIVE Ends(_, _, _)
Ends(net, c, S) ==
  LET open == {x \in S : x.o.ph # "end"} IN
  IF open = {} THEN {[nw |-> x.nw, res |-> x.o.res] : x \in S}
  ELSE Ends(net, c, (S \ open) \cup UNION {Steps(net, x.nw, c, x.o) : x \in open})
=============================================================================
