------------------------------ MODULE MCInbox ------------------------------
(* Bounded instance of Inbox: all its transitions are printed for replay.    *)
EXTENDS Inbox, TLC, Json, FiniteSets

CONSTANTS Msgs,         \* kinds of messages, a new message of the kind for every store
          MaxStored,    \* bound on messages stored at the same time
          Limits        \* limits used by polls, NoLimit included

VARIABLE op             \* last operation with its required result (not part of the state)

MCLimits == {NoLimit, 0, 1, 2, 3, 1000000, 1000001}

RECURSIVE SumOf(_, _)
SumOf(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOf(f, S \ {x})

Stored == SumOf([p \in Receivers \X Channels |-> Len(queue[p[1]][p[2]])], Receivers \X Channels)

Init == InboxInit /\ op = [name |-> "init"]

Next ==
  \/ \E r \in Receivers, c \in Channels, m \in Msgs :
        /\ Stored < MaxStored
        /\ Store(r, c, m)
        /\ op' = [name |-> "store", r |-> r, c |-> c, m |-> m]
  \/ \E r \in Receivers, c \in Channels, limit \in Limits :
        /\ Poll(r, c, limit)
        /\ op' = [name |-> "poll", r |-> r, c |-> c, limit |-> limit,
                  msgs |-> Handed(queue[r][c], limit), remaining |-> Remaining(queue[r][c], limit)]
  \/ Restart /\ op' = [name |-> "restart"]

Spec == Init /\ [][Next]_<<queue, op>>

View == queue
Edge == PrintT("EDGE " \o ToJson([f |-> queue, op |-> op', t |-> queue']))

-----------------------------------------------------------------------------
(* Design checks on the specification itself.                                *)

\* A poll conserves messages: what it hands out and what it keeps is what was there, in order.
Conserved == [][op'.name = "poll" =>
                  /\ queue[op'.r][op'.c] = op'.msgs \o queue'[op'.r][op'.c]
                  /\ op'.remaining = Len(queue'[op'.r][op'.c])
                  /\ op'.limit # NoLimit => Len(op'.msgs) <= op'.limit]_<<queue, op>>

\* An operation on one receiver and channel leaves all the others alone.
Isolated == [][\A r \in Receivers, c \in Channels :
                  queue'[r][c] # queue[r][c] => op'.name # "restart" /\ op'.r = r /\ op'.c = c]_<<queue, op>>
=============================================================================
