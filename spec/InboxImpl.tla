----------------------------- MODULE InboxImpl -----------------------------
(* How files make an inbox: the steps that stores and polls of one receiver  *)
(* and channel take, in which processes overlap, die and have storage calls  *)
(* fail; and that what comes of it is an Inbox, all the same.                *)
(*                                                                           *)
(* The folder has                                                            *)
(*   index   the identifiers of the stored messages, oldest first            *)
(*   files   identifier -> message, or Torn                                  *)
(*   temp    the next index, or Torn                                         *)
(*                                                                           *)
(* This is a design, checked by itself: the code is bound to Inbox, and may  *)
(* have any other one. Its constants say what the design relies on.          *)
EXTENDS InboxOps, FiniteSets

CONSTANTS Workers,      \* in one process
          MaxMessages,
          Limits,
          MaxCrashes,
          MaxFaults,
          Locked,       \* operations exclude each other
          FileFirst,    \* a message is stored before the index mentions it
          Replaced,     \* the index is replaced at once
          RemovedLast   \* messages are removed after the index has forgotten them

VARIABLES index, files, temp,               \* the folder
          holder, pc, op, read, got,        \* memory of the process: who has the lock; of each worker its step, its
                                            \* operation, the index as it has read it, and the messages that it has read
          next, crashes, faults,            \* bounds
          acked, handed                     \* what users were told: stored, and handed out

disk   == <<index, files, temp>>
memory == <<holder, pc, op, read, got>>
told   == <<acked, handed>>
vars   == <<disk, memory, next, crashes, faults, told>>

Nobody == 0
Torn == [torn |-> TRUE, is |-> <<>>]
Whole(value) == [torn |-> FALSE, is |-> value]
Idle == [name |-> "none", m |-> 0, limit |-> 0]
MCLimits == {NoLimit, 1}

Init ==
  /\ index = Whole(<<>>) /\ files = <<>> /\ temp = Whole(<<>>)
  /\ holder = Nobody /\ pc = [w \in Workers |-> "idle"] /\ op = [w \in Workers |-> Idle]
  /\ read = [w \in Workers |-> <<>>] /\ got = [w \in Workers |-> <<>>]
  /\ next = 1 /\ crashes = 0 /\ faults = 0 /\ acked = {} /\ handed = <<>>

Put(f, x, value) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN value ELSE f[y]]
Without(f, xs)   == [y \in DOMAIN f \ xs |-> f[y]]
SeqSet(s)        == {s[i] : i \in DOMAIN s}

Go(w, step) == pc' = [pc EXCEPT ![w] = step]

Begin(w, what) ==
  /\ pc[w] = "idle"
  /\ op' = [op EXCEPT ![w] = what]
  /\ Go(w, "lock")
  /\ UNCHANGED <<disk, holder, read, got, crashes, faults, told>>

BeginStore(w) == next <= MaxMessages /\ next' = next + 1 /\ Begin(w, [name |-> "store", m |-> next, limit |-> 0])
BeginPoll(w)  == next' = next /\ \E limit \in Limits : Begin(w, [name |-> "poll", m |-> 0, limit |-> limit])

Lock(w) ==
  /\ pc[w] = "lock"
  /\ Locked => holder = Nobody
  /\ holder' = IF Locked THEN w ELSE Nobody
  /\ Go(w, "index")
  /\ UNCHANGED <<disk, op, read, got, next, crashes, faults, told>>

First(w) == IF op[w].name = "store" THEN (IF FileFirst THEN "file" ELSE "temp") ELSE "messages"

ReadIndex(w) ==
  /\ pc[w] = "index"
  /\ IF index.torn
     THEN read' = read /\ Go(w, "failed")
     ELSE read' = [read EXCEPT ![w] = index.is] /\ Go(w, First(w))
  /\ UNCHANGED <<disk, holder, op, got, next, crashes, faults, told>>

\* Writing takes two steps: in between there is something torn.
Write(w, step, after, torn, whole) ==
  \/ pc[w] = step /\ torn /\ Go(w, step \o "2")
  \/ pc[w] = step \o "2" /\ whole /\ Go(w, after)

WriteFile(w) ==
  /\ Write(w, "file", IF FileFirst THEN "temp" ELSE "done",
           files' = Put(files, op[w].m, Torn), files' = Put(files, op[w].m, Whole(op[w].m)))
  /\ UNCHANGED <<index, temp, holder, op, read, got, next, crashes, faults, told>>

\* All those messages which are there count towards the limit.
ReadMessages(w) ==
  /\ pc[w] = "messages"
  /\ LET there == SelectSeq(read[w], LAMBDA m : m \in DOMAIN files)
         taken == Handed(there, op[w].limit) IN
     IF \E m \in SeqSet(taken) : files[m].torn
     THEN got' = got /\ Go(w, "failed")
     ELSE got' = [got EXCEPT ![w] = taken] /\ Go(w, IF RemovedLast THEN "temp" ELSE "remove")
  /\ UNCHANGED <<disk, holder, op, read, next, crashes, faults, told>>

NewIndex(w) ==
  IF op[w].name = "store" THEN Append(read[w], op[w].m)
  ELSE SelectSeq(read[w], LAMBDA m : m \notin SeqSet(got[w]))

AfterIndex(w) ==
  IF op[w].name = "store" THEN (IF FileFirst THEN "done" ELSE "file")
  ELSE IF RemovedLast THEN "remove" ELSE "done"

WriteIndex(w) ==
  /\ IF Replaced
     THEN /\ Write(w, "temp", "rename", temp' = Torn, temp' = Whole(NewIndex(w)))
          /\ UNCHANGED index
     ELSE /\ Write(w, "temp", AfterIndex(w), index' = Torn, index' = Whole(NewIndex(w)))
          /\ UNCHANGED temp
  /\ UNCHANGED <<files, holder, op, read, got, next, crashes, faults, told>>

Rename(w) ==
  /\ pc[w] = "rename"
  /\ index' = temp
  /\ temp' = Whole(<<>>)
  /\ Go(w, AfterIndex(w))
  /\ UNCHANGED <<files, holder, op, read, got, next, crashes, faults, told>>

Remove(w) ==
  /\ pc[w] = "remove"
  /\ files' = Without(files, SeqSet(got[w]))
  /\ Go(w, IF RemovedLast THEN "done" ELSE "temp")
  /\ UNCHANGED <<index, temp, holder, op, read, got, next, crashes, faults, told>>

Over(w) ==
  /\ holder' = IF holder = w THEN Nobody ELSE holder
  /\ Go(w, "idle")
  /\ op' = [op EXCEPT ![w] = Idle]
  /\ read' = [read EXCEPT ![w] = <<>>]
  /\ got' = [got EXCEPT ![w] = <<>>]

Done(w) ==
  /\ pc[w] = "done"
  /\ Over(w)
  /\ acked' = IF op[w].name = "store" THEN acked \cup {op[w].m} ELSE acked
  /\ handed' = handed \o got[w]
  /\ UNCHANGED <<disk, next, crashes, faults>>

Fail(w) == pc[w] = "failed" /\ Over(w) /\ UNCHANGED <<disk, next, crashes, faults, told>>

\* A storage call fails. That polled messages can't be removed is nobody's concern.
Fault(w) ==
  /\ faults < MaxFaults
  /\ faults' = faults + 1
  /\ pc[w] \in {"index", "file", "file2", "messages", "temp", "temp2", "rename", "remove"}
  /\ Go(w, IF pc[w] = "remove" /\ RemovedLast THEN "done" ELSE "failed")
  /\ UNCHANGED <<disk, holder, op, read, got, next, crashes, told>>

\* The process dies; what's on the disk stays.
Crash ==
  /\ crashes < MaxCrashes
  /\ crashes' = crashes + 1
  /\ holder' = Nobody
  /\ pc' = [w \in Workers |-> "idle"]
  /\ op' = [w \in Workers |-> Idle]
  /\ read' = [w \in Workers |-> <<>>]
  /\ got' = [w \in Workers |-> <<>>]
  /\ UNCHANGED <<disk, next, faults, told>>

Step(w) == \/ BeginStore(w) \/ BeginPoll(w) \/ Lock(w) \/ ReadIndex(w) \/ WriteFile(w) \/ ReadMessages(w)
           \/ WriteIndex(w) \/ Rename(w) \/ Remove(w) \/ Done(w) \/ Fail(w) \/ Fault(w)

Next == Crash \/ \E w \in Workers : Step(w)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* It is an inbox.                                                           *)

Stored == IF index.torn THEN <<>> ELSE SelectSeq(index.is, LAMBDA m : m \in DOMAIN files)

Abstract == INSTANCE Inbox WITH Receivers <- {1}, Channels <- {1}, queue <- [r \in {1} |-> [c \in {1} |-> Stored]]

\* Every step that is seen is that of an operation which has begun and hasn't ended.
IsInbox == [][\/ \E w \in Workers : op[w].name = "store" /\ Abstract!Store(1, 1, op[w].m)
              \/ \E w \in Workers : op[w].name = "poll" /\ Abstract!Poll(1, 1, op[w].limit)
              \/ Abstract!Restart]_Stored

\* What a store was acknowledged for is there, or was taken by a poll which has handed it out, will, or died.
Kept_ == crashes = 0 => acked \subseteq SeqSet(Stored) \cup SeqSet(handed) \cup UNION {SeqSet(got[w]) : w \in Workers}

\* A poll that fails has taken nothing.
NothingLost == crashes = 0 => \A w \in Workers : pc[w] = "failed" /\ op[w].name = "poll" => SeqSet(got[w]) \subseteq SeqSet(Stored)

\* No message is handed out twice, or is torn.
Once == Cardinality(SeqSet(handed)) = Len(handed)
Readable == ~index.torn /\ \A m \in SeqSet(Stored) : ~files[m].torn

\* A message that was acknowledged before another one was sent is handed out before it.
InOrder == \A i, j \in DOMAIN handed : i < j /\ handed[i] \in acked /\ handed[j] \in acked => handed[i] < handed[j] \/ Cardinality(Workers) > 1

\* An operation that nobody disturbs can be finished.
NoHang == \A w \in Workers : pc[w] = "lock" /\ Locked /\ holder # Nobody => pc[holder] # "idle"
=============================================================================
