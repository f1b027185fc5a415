---------------------------- MODULE TraceNetwork ----------------------------
(* Decides whether recorded histories of real servers and clients are        *)
(* behaviours of Network. Events are calls and returns; a history also has   *)
(* net.                                                                      *)
EXTENDS Network, TLC, Json, IOUtils

Hist == ndJsonDeserialize(IOEnv.TRACE)
Verbose == "VERBOSE" \in DOMAIN IOEnv

VARIABLES h, l,
          open,  \* operations in progress: i, and how far they have come
          nw

vars == <<h, l, open, nw>>

Net == Hist[h].net
T == Hist[h].events
Ev == T[l]
Is(e) == l <= Len(T) /\ Ev.e = e /\ l' = l + 1 /\ h' = h

TInit == /\ h \in 1 .. Len(Hist)
         /\ l = 1
         /\ open = {}
         /\ nw = Start(Hist[h].net)

\* The operation, with the date that its client has made a certificate with.
Called(i) == [d |-> T[T[i].rl].d] @@ T[i].c

Listed(said, res) == IF res = <<>> THEN said = <<>> ELSE Len(said) >= 1 /\ \A k \in 1 .. Len(said) : said[k] = res[k]

Answers(res, said) ==
  /\ \A field \in {"ok", "kind", "v", "at", "k", "remaining"} : said[field] = res[field]
  /\ Listed(said.recs, res.recs)
  /\ Len(said.msgs) = Len(res.msgs)
  /\ \A j \in 1 .. Len(res.msgs) : said.msgs[j].m = res.msgs[j].m /\ said.msgs[j].by = res.msgs[j].by
  /\ Len(said.tables) = Len(res.tables)
  /\ \A j \in 1 .. Len(res.tables) : Listed(said.tables[j], res.tables[j])

Call == Is("call") /\ open' = open \cup {[i |-> l, o |-> Fresh]} /\ UNCHANGED nw

\* Nothing happens between the call and the return.
Alone(p) == T[p.i].rl = p.i + 1 /\ open = {p} /\ ~T[p.i].c.lossy

Step(p) ==
  /\ l <= Len(T) /\ Ev.e = "ret" /\ ~Alone(p) /\ p.o.ph # "end"
  /\ \E x \in Steps(Net, nw, Called(p.i), p.o) :
       /\ x.o.ph = "end" => Answers(x.o.res, T[T[p.i].rl])
       /\ nw' = x.nw
       /\ open' = (open \ {p}) \cup {[p EXCEPT !.o = x.o]}
  /\ UNCHANGED <<h, l>>

Ret ==
  /\ Is("ret")
  /\ \E p \in open :
       /\ p.i = Ev.cl
       /\ open' = open \ {p}
       /\ IF Alone(p) THEN \E x \in Do(Net, nw, Called(p.i)) : Answers(x.res, Ev) /\ nw' = x.nw
          ELSE p.o.ph = "end" /\ UNCHANGED nw

TNext == Call \/ (\E p \in open : Step(p)) \/ Ret

TSpec == TInit /\ [][TNext]_vars

Report == /\ l > Len(T) => PrintT(<<"ACCEPTED", Hist[h].id>>)
          /\ Verbose => PrintT(<<"AT", Hist[h].id, l>>)

TKeys == 1 .. 9
=============================================================================
