---------------------------- MODULE TraceServers ----------------------------
(* Decides whether recorded histories of one or several real servers are     *)
(* behaviours of Server, each of the servers with a state of its own. Events *)
(* are those of TraceInbox, with calls of                                    *)
(*   request   q, at the at-th server                                        *)
(*   tables    contents of the routing table of the at-th server             *)
(*   fill      q, at, from, to: such a request has been accepted for each of *)
(*             the clients, servers or messages with these numbers           *)
(* and returns with the answer res or the contents in tables. A history also *)
(* has servers, the keys of its servers, and keys, how many keys there are.  *)
EXTENDS Server, TLC, Json, IOUtils

Hist == ndJsonDeserialize(IOEnv.TRACE)
Verbose == "VERBOSE" \in DOMAIN IOEnv

VARIABLES h, l,
          open,  \* calls in progress: i, and how far a lookup has come
          sts    \* states of the servers

vars == <<h, l, open, sts>>

T == Hist[h].events
Ev == T[l]
Is(e) == l <= Len(T) /\ Ev.e = e /\ l' = l + 1 /\ h' = h
Self(at) == Hist[h].servers[at]

TInit == /\ h \in 1 .. Len(Hist)
         /\ l = 1
         /\ open = {}
         /\ sts = [at \in 1 .. Len(Hist[h].servers) |-> ServerOf(1 .. Hist[h].keys)]

Call == Is("call") /\ open' = open \cup {[i |-> l, ph |-> 0]} /\ UNCHANGED sts

Matches(table, recs) == Len(recs) >= 1 /\ TRUE = \A k \in 1 .. Len(recs) : recs[k] = table[k].v

\* Whether the answer is the one that the specification gives.
Answers(res, said) ==
  /\ said.ok = res.ok
  /\ said.kind = res.kind
  /\ said.v = res.v
  /\ said.remaining = res.remaining
  /\ Len(said.msgs) = Len(res.msgs)
  /\ TRUE = \A j \in 1 .. Len(res.msgs) : said.msgs[j].m = res.msgs[j].m /\ said.msgs[j].by = res.msgs[j].by
  /\ IF res.recs = <<>> THEN said.recs = <<>>
     ELSE Len(said.recs) >= 1 /\ TRUE = \A k \in 1 .. Len(said.recs) : said.recs[k] = res.recs[k]

\* A request takes effect at once.
Whole(o, c, ret) ==
  \E outcome \in Outcomes(Self(c.at), sts[c.at], c.q) :
    /\ ret.ok => Answers(outcome.res, ret.res)
    /\ sts' = [sts EXCEPT ![c.at] = outcome.st]
    /\ open' = open \ {o}

\* The server looks for the client in one table after the other.
Looking(o, c, ret) ==
  LET st == sts[c.at]
      table == IF o.ph = 0 THEN st.local ELSE st.remote
      found == Found(table, c.q.who, c.q.ty)
      next == (open \ {o}) \cup {[o EXCEPT !.ph = @ + 1]} IN
  /\ UNCHANGED sts
  /\ IF o.ph = 2
     THEN /\ Answers([Plain EXCEPT !.kind = "hint", !.recs = Listing(st.servers)], ret.res)
          /\ open' = open \ {o}
     ELSE IF found # 0
     THEN /\ Answers([Plain EXCEPT !.kind = IF o.ph = 0 THEN "local" ELSE "remote", !.v = found], ret.res)
          /\ open' = open \ {o}
     ELSE open' = next

\* What a request that failed or was interrupted has done.
Broken(o, c) ==
  /\ open' = open \ {o}
  /\ \/ UNCHANGED sts
     \/ /\ Valid(Self(c.at), c.q)
        /\ \/ /\ c.q.op = "disconnect"
              /\ \E local, remote, servers \in BOOLEAN :
                   sts' = [sts EXCEPT ![c.at] = [@ EXCEPT
                     !.local[c.q.key]   = IF local THEN None ELSE @,
                     !.remote[c.q.key]  = IF remote THEN None ELSE @,
                     !.servers[c.q.key] = IF servers THEN None ELSE @]]
           \/ /\ c.q.op \in {"connect", "announce", "server", "send"} \/ (c.q.op = "poll" /\ c.rl = 0)
              /\ \E outcome \in Outcomes(Self(c.at), sts[c.at], c.q) : sts' = [sts EXCEPT ![c.at] = outcome.st]

\* One table is read after the other.
Tables(o, c, ret) ==
  LET st == sts[c.at] IN
  /\ open' = (open \ {o}) \cup (IF o.ph = 2 THEN {} ELSE {[o EXCEPT !.ph = @ + 1]})
  /\ UNCHANGED sts
  /\ Len(ret.tables) = 3
  /\ CASE o.ph = 0 -> Matches(st.local, ret.tables[1])
       [] o.ph = 1 -> Matches(st.remote, ret.tables[2])
       [] o.ph = 2 -> Matches(st.servers, ret.tables[3])

Lin(o) ==
  /\ l <= Len(T) /\ Ev.e \in {"ret", "crash"}
  /\ UNCHANGED <<h, l>>
  /\ LET c == T[o.i] IN
     IF c.rl = 0 THEN Broken(o, c)
     ELSE LET ret == T[c.rl] IN
       IF c.op = "tables" THEN ret.ok /\ Tables(o, c, ret)
       ELSE IF c.q.op = "lookup" /\ ret.res.ok /\ Valid(Self(c.at), c.q) THEN Looking(o, c, ret)
       ELSE \/ Whole(o, c, ret)
            \/ ret.fault /\ ret.res.kind = "refused" /\ Broken(o, c)

\* Many requests that differ in one number only, one after the other.
Fill ==
  /\ Is("fill")
  /\ open = {} /\ UNCHANGED open
  /\ LET q == Ev.q
         All(table) == [k \in DOMAIN table |-> IF k \in Ev.from .. Ev.to THEN Record(q) ELSE table[k]]
         st == sts[Ev.at]
         Fresh(table) == TRUE = \A k \in Ev.from .. Ev.to : table[k] = None IN
     sts' = [sts EXCEPT ![Ev.at] =
       CASE q.op = "connect" -> [@ EXCEPT !.local = All(@)]
         [] q.op = "announce" -> IF Fresh(st.remote) THEN [@ EXCEPT !.remote = All(@)] ELSE @
         [] q.op = "server" -> [@ EXCEPT !.servers = [k \in DOMAIN @ |-> IF k \in Ev.from .. Ev.to THEN [v |-> q.v, d |-> 0, ty |-> 0] ELSE @[k]]]
         [] q.op = "send" -> [@ EXCEPT !.queue[q.who][q.c] = @ \o [n \in 1 .. Ev.to - Ev.from + 1 |-> [m |-> Ev.from + n - 1, by |-> q.key]]]]

Ret ==
  /\ Is("ret")
  /\ UNCHANGED <<sts, open>>
  /\ IF Ev.ok THEN \A o \in open : o.i # Ev.cl ELSE FALSE

\* Looking at tables directly can fail like anything else.
Failed ==
  /\ Is("ret")
  /\ ~Ev.ok /\ Ev.fault /\ T[Ev.cl].op = "tables"
  /\ open' = {o \in open : o.i # Ev.cl}
  /\ UNCHANGED sts

Crash == Is("crash") /\ open' = {} /\ UNCHANGED sts
Reopen == Is("restart") /\ UNCHANGED <<open, sts>>

TNext == Call \/ (\E o \in open : Lin(o)) \/ Ret \/ Fill \/ Failed \/ Crash \/ Reopen

TSpec == TInit /\ [][TNext]_vars

Report == /\ l > Len(T) => PrintT(<<"ACCEPTED", Hist[h].id>>)
          /\ Verbose => PrintT(<<"AT", Hist[h].id, l>>)
=============================================================================
