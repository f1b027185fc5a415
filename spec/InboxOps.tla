----------------------------- MODULE InboxOps ------------------------------
(* What polls hand out of a queue of messages.                               *)
EXTENDS Integers, Sequences

NoLimit == -1

Min(a, b) == IF a < b THEN a ELSE b

\* Number of messages that a poll with the given limit hands out of queue q.
Taken(q, limit) == IF limit = NoLimit THEN Len(q) ELSE Min(limit, Len(q))

Handed(q, limit)    == SubSeq(q, 1, Taken(q, limit))
Kept(q, limit)      == SubSeq(q, Taken(q, limit) + 1, Len(q))
Remaining(q, limit) == Len(q) - Taken(q, limit)
=============================================================================
