---------------------------- MODULE TraceRouter -----------------------------
(* Decides whether recorded histories of the real routing table are          *)
(* behaviours of Router. Events are those of TraceInbox, with calls of       *)
(*   local, remote, server   k, rec: index a record                          *)
(*   disconnect              k                                               *)
(*   locals, remotes, servers, hints   listings                              *)
(*   flocal, fremote, fserver          k, ty: lookups                        *)
(*   fill  op, rec, from, to: the record was indexed for all these keys, one *)
(*         after the other, that had none                                    *)
(* and returns with done (was it indexed), recs (content for every key; -1   *)
(* for a record that was never indexed, or several of one key), found.       *)
EXTENDS Router, Sequences, TLC, Json, IOUtils

Hist == ndJsonDeserialize(IOEnv.TRACE)
Verbose == "VERBOSE" \in DOMAIN IOEnv

VARIABLES h, l, open

vars == <<h, l, open, tables>>

T == Hist[h].events
Ev == T[l]
Is(e) == l <= Len(T) /\ Ev.e = e /\ l' = l + 1 /\ h' = h

TInit == /\ h \in 1 .. Len(Hist)
         /\ l = 1
         /\ open = {}
         /\ RouterOf(1 .. Hist[h].keys)

Call == Is("call") /\ open' = open \cup {l} /\ UNCHANGED tables

Reads == {"locals", "remotes", "servers", "hints", "flocal", "fremote", "fserver"}

\* Whether the listing says what the table holds.
Lists(ret, table) == /\ Len(ret.recs) >= 1
                     /\ TRUE = \A k \in 1 .. Len(ret.recs) : ret.recs[k] = table[k].v

Effect(c, returned, ret) ==
  LET ok == returned /\ ret.ok IN
  \/ c.op = "local" /\ IndexLocal(c.k, c.rec) /\ (ok => ret.done)
  \/ c.op = "server" /\ IndexServer(c.k, c.rec) /\ (ok => ret.done)
  \/ c.op = "remote" /\ \E accepted \in BOOLEAN : (ok => accepted = ret.done) /\ IndexRemote(c.k, c.rec, accepted)
  \/ c.op = "disconnect" /\ IF ok THEN Disconnect(c.k) ELSE DisconnectPart(c.k)
  \/ c.op \in Reads /\ ok /\ UNCHANGED tables
     /\ CASE c.op = "locals"  -> Lists(ret, local)
          [] c.op = "remotes" -> Lists(ret, remote)
          [] c.op \in {"servers", "hints"} -> Lists(ret, servers)
          [] c.op = "flocal"  -> ret.found = Found(local, c.k, c.ty)
          [] c.op = "fremote" -> ret.found = Found(remote, c.k, c.ty)
          [] c.op = "fserver" -> ret.found = servers[c.k].v

Lin(i) ==
  /\ l <= Len(T) /\ Ev.e \in {"ret", "crash"}
  /\ open' = open \ {i}
  /\ UNCHANGED <<h, l>>
  /\ Effect(T[i], T[i].rl # 0, IF T[i].rl # 0 THEN T[T[i].rl] ELSE [ok |-> FALSE])

Ret ==
  /\ Is("ret")
  /\ UNCHANGED tables
  /\ IF Ev.ok
     THEN Ev.cl \notin open /\ open' = open
     ELSE Ev.fault /\ open' = open \ {Ev.cl}

Fill ==
  /\ Is("fill")
  /\ open = {} /\ open' = open
  /\ IndexAll(Ev.op, Ev.from .. Ev.to, Ev.rec)

Crash == Is("crash") /\ open' = {} /\ RouterRestart

Reopen == Is("restart") /\ open' = open /\ RouterRestart

TNext == Call \/ (\E i \in open : Lin(i)) \/ Ret \/ Fill \/ Crash \/ Reopen

TSpec == TInit /\ [][TNext]_vars

Report == /\ l > Len(T) => PrintT(<<"ACCEPTED", Hist[h].id>>)
          /\ Verbose => PrintT(<<"AT", Hist[h].id, l>>)
=============================================================================
