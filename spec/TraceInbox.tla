----------------------------- MODULE TraceInbox -----------------------------
(* Decides whether recorded histories of the real inbox are behaviours of    *)
(* Inbox. A history is a sequence of events:                                 *)
(*   call  op (store/poll), r, c, k (kind of message), limit, t (clock),     *)
(*         rl (index of its ret event, 0 if it never returned)               *)
(*   ret   cl (index of the call), ok, fault (a storage call was made to     *)
(*         fail meanwhile), msgs (kinds), at (times of receiving), remaining *)
(*   fill  r, c, ks, from, to: a run of stores one after the other, each of   *)
(*         them with its kind and bounds on the time of receiving            *)
(*   crash     the process died                                              *)
(*   restart   the inbox was opened anew                                     *)
(* Any other event (a hang, a panic, a change outside of the storage) has no *)
(* counterpart in the specification, so that a history with it is rejected.  *)
(*                                                                           *)
(* Every operation takes effect at one moment between its call and its       *)
(* return (Lin). A failed store may have taken effect or not, a failed poll  *)
(* may not; an operation interrupted by a crash may have or not.             *)
EXTENDS Inbox, TLC, Json, IOUtils

Hist == ndJsonDeserialize(IOEnv.TRACE)
Verbose == "VERBOSE" \in DOMAIN IOEnv

VARIABLES h,    \* number of the history
          l,    \* next event
          open  \* calls that have not taken effect, nor ended

vars == <<h, l, open, queue>>

T == Hist[h].events
Ev == T[l]
Is(e) == l <= Len(T) /\ Ev.e = e /\ l' = l + 1 /\ h' = h

Forever == 2000000000
HiOf(i) == IF T[i].rl = 0 THEN Forever ELSE T[T[i].rl].t

\* What the queues of the specification hold.
Stored(k, lo, hi) == [k |-> k, lo |-> lo, hi |-> hi]

\* The poll returned exactly the messages in q, each with the time at which it was stored.
Matches(ret, q, remaining) ==
  /\ Len(ret.msgs) = Len(q)
  /\ ret.remaining = remaining
  /\ \A j \in 1 .. Len(q) :
        /\ ret.msgs[j] = q[j].k
        /\ q[j].lo <= ret.at[j]
        /\ ret.at[j] <= q[j].hi

TInit == /\ h \in 1 .. Len(Hist)
         /\ l = 1
         /\ open = {}
         /\ InboxInit

Call == Is("call") /\ open' = open \cup {l} /\ UNCHANGED queue

\* Effects are placed right before the event that may depend on them.
Lin(i) ==
  /\ l <= Len(T) /\ Ev.e \in {"ret", "crash"}
  /\ open' = open \ {i}
  /\ UNCHANGED <<h, l>>
  /\ LET c == T[i] IN
     \/ /\ c.op = "store"
        /\ Store(c.r, c.c, Stored(c.k, c.t, HiOf(i)))
     \/ /\ c.op = "poll"
        /\ c.rl # 0 => LET ret == T[c.rl] IN
              /\ ret.ok
              /\ TRUE = Matches(ret, Handed(queue[c.r][c.c], c.limit), Remaining(queue[c.r][c.c], c.limit))
        /\ Poll(c.r, c.c, c.limit)

Ret ==
  /\ Is("ret")
  /\ UNCHANGED queue
  /\ IF Ev.ok
     THEN Ev.cl \notin open /\ open' = open
     ELSE /\ Ev.fault
          /\ T[Ev.cl].op = "poll" => Ev.cl \in open
          /\ open' = open \ {Ev.cl}

Fill ==
  /\ Is("fill")
  /\ open = {} /\ open' = open
  /\ StoreAll(Ev.r, Ev.c, [j \in 1 .. Len(Ev.ks) |-> Stored(Ev.ks[j], Ev.from[j], Ev.to[j])])

Crash == Is("crash") /\ open' = {} /\ Restart

Reopen == Is("restart") /\ open' = open /\ Restart

TNext == Call \/ (\E i \in open : Lin(i)) \/ Ret \/ Fill \/ Crash \/ Reopen

TSpec == TInit /\ [][TNext]_vars

Report == /\ l > Len(T) => PrintT(<<"ACCEPTED", Hist[h].id>>)
          /\ Verbose => PrintT(<<"AT", Hist[h].id, l>>)

TReceivers == 1 .. 6
TChannels == 1 .. 12
=============================================================================
