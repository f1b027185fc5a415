----------------------------- MODULE MCNetwork -----------------------------
(* Bounded instances of Network: all the transitions are printed for being   *)
(* done to real servers and clients.                                         *)
EXTENDS Network, TLC, Json

CONSTANTS Instance

VARIABLES nw, op,
          dates  \* of the clients' last certificates

vars == <<nw, op, dates>>

\* A client sends to another one that moves between two servers.
Moving == [net |-> [host |-> <<1, 2>>, key |-> <<3, 4>>, who |-> <<1, 2>>, ty |-> <<1, 2>>], most |-> <<1, 2>>, stored |-> 1]

\* Servers learn of each other while two clients stay where they are; the last address leads nowhere.
Links == [net |-> [host |-> <<1, 2, 3, 0>>, key |-> <<3, 4, 5>>, who |-> <<1, 2>>, ty |-> <<1, 2>>], most |-> <<1, 1>>, stored |-> 1]

\* Two sessions of one client at two servers.
Devices == [net |-> [host |-> <<1, 2>>, key |-> <<3, 4>>, who |-> <<1, 2, 2>>, ty |-> <<1, 1, 2>>], most |-> <<1, 1, 1>>, stored |-> 2]

It == CASE Instance = "Moving" -> Moving [] Instance = "Links" -> Links [] Instance = "Devices" -> Devices
Net == It.net

Nodes == DOMAIN Net.key
Sessions == DOMAIN Net.who
Addresses == DOMAIN Net.host
Everyone == {Net.who[s] : s \in Sessions}

Blank == [op |-> "", s |-> 0, n |-> 0, at |-> 0, key |-> 0, a |-> 0, k |-> 0, ty |-> 0, r |-> 0, ch |-> 1, m |-> 1, limit |-> NoLimit, d |-> 0, lossy |-> FALSE]

By(o, s) == [Blank EXCEPT !.op = o, !.s = s]
Of(o, n) == [Blank EXCEPT !.op = o, !.n = n]

RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(f, S \ {x})
Stored == LET all == Nodes \X Keys \X Channels IN SumOver([p \in all |-> Len(nw.sts[p[1]].queue[p[2]][p[3]])], all)

Connects(s, where) == {[By("connect", s) EXCEPT !.at = a, !.d = dates[s] + 1] : a \in IF dates[s] < It.most[s] THEN where ELSE {}}
Sends(s, r) == IF Stored >= It.stored THEN {} ELSE {[By("send", s) EXCEPT !.r = r, !.at = a, !.k = IF a = 0 THEN r ELSE 0] : a \in Addresses \cup {0}}

Operations ==
  CASE Instance = "Moving" ->
         Connects(1, {1}) \cup Connects(2, {1, 2}) \cup {By("disconnect", 2)}
         \cup {[By("announce", 2) EXCEPT !.at = a] : a \in Addresses}
         \cup Sends(1, 2)
         \cup {[By("poll", s) EXCEPT !.limit = limit] : s \in {1, 2}, limit \in {NoLimit}}
         \cup {[By("lookup", 1) EXCEPT !.k = 2, !.ty = ty] : ty \in {0, 1}}
         \cup (IF nw.conn[1].at = 0 THEN {} ELSE {[By("tell", 1) EXCEPT !.at = p[1], !.key = p[2], !.a = p[3]] : p \in {<<1, 4, 2>>, <<2, 3, 1>>}}
                    \cup {[By("steal", 1) EXCEPT !.at = a, !.k = 2] : a \in Addresses}
                    \cup {Of("reboot", n) : n \in Nodes})
    [] Instance = "Links" ->
         Connects(1, {1}) \cup Connects(2, {3})
         \cup (IF nw.conn[1].at = 0 \/ nw.conn[2].at = 0 THEN {}
               ELSE {[By("tell", 1) EXCEPT !.at = p[1], !.key = p[2], !.a = p[3]] : p \in {<<1, 4, 2>>, <<2, 5, 3>>, <<3, 3, 1>>, <<3, 5, 4>>}}
                    \cup {Of("traverse", n) : n \in Nodes}
                    \cup {Of(o, 2) : o \in {"reboot", "down", "up"}}
                    \cup {[By("lookup", 1) EXCEPT !.k = 2]}
                    \cup (IF Stored = 0 THEN {[By("send", 1) EXCEPT !.k = 2, !.r = 2]} ELSE {By("poll", 2)}))
    [] Instance = "Devices" ->
         Connects(1, {1}) \cup Connects(2, {1, 2}) \cup Connects(3, {1, 2})
         \cup {By("disconnect", s) : s \in {2, 3}}
         \cup {[By("announce", s) EXCEPT !.at = a] : s \in {2, 3}, a \in {1}}
         \cup Sends(1, 2)
         \cup {[By("poll", s) EXCEPT !.limit = 1] : s \in {2, 3}}
         \cup {[By("lookup", 1) EXCEPT !.k = 2, !.ty = ty] : ty \in {0, 1, 2}}

Init == nw = Start(Net) /\ dates = [s \in Sessions |-> 0] /\ op = [c |-> Blank, res |-> Done]

Next == \E c \in Operations : \E x \in Do(Net, nw, c) :
  /\ nw' = x.nw
  /\ op' = [c |-> c, res |-> x.res]
  /\ dates' = IF c.op = "connect" THEN [dates EXCEPT ![c.s] = c.d] ELSE dates

Spec == Init /\ [][Next]_vars

View == <<nw, dates>>

Compact(n) == [conn |-> n.conn, up |-> n.up, sts |-> [i \in Nodes |-> Contents(n.sts[i]) \o <<[k \in Everyone |-> n.sts[i].queue[k]]>>]]
Edge == PrintT("EDGE " \o ToJson([f |-> <<ToString(Compact(nw)), dates>>, op |-> op'.c, t |-> <<ToString(Compact(nw')), dates'>>]))

-----------------------------------------------------------------------------
(* The guarantees, on the specification itself.                              *)

\* Operations are as their steps.
StepsAgree == \A c \in Operations :
  (c.op = "traverse" => Cardinality(Spread(Net, nw, Known(nw, c.n))) <= 2) => Ends(Net, c, {[nw |-> nw, o |-> Fresh]}) = Do(Net, nw, c)

C == op'.c

\* What is sent is added once, to the receiver's queue at one server, if sending succeeds.
Delivered ==
  [][C.op = "send" =>
       IF op'.res.ok
       THEN \E n \in Nodes :
              nw'.sts = [nw.sts EXCEPT ![n].queue[C.r][C.ch] = Append(@, [m |-> C.m, by |-> Net.who[C.s]])]
       ELSE nw' = nw]_vars

\* Queues lose their first messages to the one polling them, and nothing else.
Handed1 ==
  [][C.op # "send" =>
       \A n \in Nodes, k \in Everyone, ch \in Channels :
         LET old == nw.sts[n].queue[k][ch]
             new == nw'.sts[n].queue[k][ch] IN
         new # old => /\ C.op = "poll" /\ Net.who[C.s] = k /\ C.ch = ch /\ Net.host[nw.conn[C.s].at] = n
                      /\ old = op'.res.msgs \o new /\ op'.res.remaining = Len(new)]_vars

\* What someone gets was sent to them.
Own == [][op'.res.msgs # <<>> => C.op = "poll" /\ nw.sts[Net.host[nw.conn[C.s].at]].queue[Net.who[C.s]][C.ch] # <<>>]_vars

\* An operation changes one server.
Separate == [][Cardinality({n \in Nodes : nw'.sts[n] # nw.sts[n]}) <= 1]_vars

\* A failing operation changes nothing.
Failing == [][~op'.res.ok => nw' = nw]_vars
=============================================================================
