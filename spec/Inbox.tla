------------------------------- MODULE Inbox -------------------------------
(* Messages inbox of one server: a queue of messages for every receiver and  *)
(* channel. This is the whole truth about what a user of the inbox can see:  *)
(* files, indices, locks and crashes are below it (see InboxImpl).           *)
EXTENDS InboxOps

CONSTANTS Receivers, Channels

VARIABLE queue          \* receiver -> channel -> stored messages, oldest first

InboxInit == queue = [r \in Receivers |-> [c \in Channels |-> <<>>]]

Store(r, c, m) == queue' = [queue EXCEPT ![r][c] = Append(@, m)]

\* A run of stores.
StoreAll(r, c, ms) == queue' = [queue EXCEPT ![r][c] = @ \o ms]

\* The result of the poll is Handed(queue[r][c], limit), Remaining(queue[r][c], limit).
Poll(r, c, limit) == queue' = [queue EXCEPT ![r][c] = Kept(@, limit)]

\* Starting the server anew on the same storage changes nothing.
Restart == UNCHANGED queue
=============================================================================
