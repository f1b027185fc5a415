----------------------------- MODULE RouterImpl -----------------------------
(* How files make a routing table: the steps that its operations take, in    *)
(* which they overlap, the process dies and storage calls fail; and that     *)
(* what comes of it is a Router, all the same.                               *)
(*                                                                           *)
(* The folder has                                                            *)
(*   files   table -> key -> record, None or Torn                            *)
(*   temp    the next record, or Torn                                        *)
(*                                                                           *)
(* This is a design, checked by itself: the code is bound to Router, and may *)
(* have any other one. Its constants say what the design relies on.          *)
EXTENDS RouterOps, Sequences, FiniteSets

CONSTANTS Workers,      \* in one process
          Keys,
          MaxOps,
          MaxCrashes,
          MaxFaults,
          Locked,       \* operations exclude each other
          Replaced,     \* records are replaced at once
          Compared      \* known records are read before they are replaced

VARIABLES files, temp,                     \* the folder
          holder, pc, op, seen, left,      \* memory of the process: who has the lock; of each worker its step, its
                                           \* operation, what it has listed, and the keys or tables that it has left to do
          ops, crashes, faults,            \* bounds
          old, listed                      \* of each worker: tables as they were when it got the lock; its listing

disk   == <<files, temp>>
memory == <<holder, pc, op, seen, left>>
vars   == <<disk, memory, ops, crashes, faults, old, listed>>

Nobody == 0
Torn == [v |-> -1, d |-> 0, ty |-> 0]
Tables == {"local", "remote", "servers"}

\* Records of two dates, and two of the same date.
Records == {[v |-> 1, d |-> 1, ty |-> 1], [v |-> 2, d |-> 2, ty |-> 1], [v |-> 3, d |-> 2, ty |-> 1]}

Idle == [name |-> "none", table |-> "local", k |-> 0, record |-> None]

Indexes     == {[name |-> "index", table |-> table, k |-> k, record |-> record] : table \in {"local", "remote"}, k \in Keys, record \in Records}
Disconnects == {[name |-> "disconnect", table |-> "local", k |-> k, record |-> None] : k \in Keys}
Listings    == {[name |-> "list", table |-> table, k |-> 0, record |-> None] : table \in {"remote"}}

Init ==
  /\ files = [table \in Tables |-> [k \in Keys |-> None]] /\ temp = None
  /\ holder = Nobody /\ pc = [w \in Workers |-> "idle"] /\ op = [w \in Workers |-> Idle]
  /\ seen = [w \in Workers |-> [k \in Keys |-> None]] /\ left = [w \in Workers |-> {}]
  /\ ops = 0 /\ crashes = 0 /\ faults = 0
  /\ old = [w \in Workers |-> files] /\ listed = [w \in Workers |-> [k \in Keys |-> None]]

Go(w, step) == pc' = [pc EXCEPT ![w] = step]

Begin(w) ==
  /\ pc[w] = "idle" /\ ops < MaxOps
  /\ ops' = ops + 1
  /\ \E what \in Indexes \cup Disconnects \cup Listings : op' = [op EXCEPT ![w] = what]
  /\ Go(w, "lock")
  /\ UNCHANGED <<disk, holder, seen, left, crashes, faults, old, listed>>

First(w) == CASE op[w].name = "index" -> (IF Compared THEN "known" ELSE "temp")
              [] op[w].name = "disconnect" -> "remove"
              [] op[w].name = "list" -> "read"

Lock(w) ==
  /\ pc[w] = "lock"
  /\ Locked => holder = Nobody
  /\ holder' = IF Locked THEN w ELSE Nobody
  /\ old' = [old EXCEPT ![w] = files]
  /\ left' = [left EXCEPT ![w] = IF op[w].name = "list" THEN Keys ELSE IF op[w].name = "disconnect" THEN {1, 2, 3} ELSE {}]
  /\ Go(w, First(w))
  /\ UNCHANGED <<disk, op, seen, ops, crashes, faults, listed>>

\* What can't be read is replaced.
Known(w) ==
  /\ pc[w] = "known"
  /\ LET known == files[op[w].table][op[w].k] IN
     Go(w, IF op[w].table = "remote" /\ known \notin {None, Torn} /\ known.d > op[w].record.d THEN "done" ELSE "temp")
  /\ UNCHANGED <<disk, holder, op, seen, left, ops, crashes, faults, old, listed>>

\* Writing takes two steps: in between there is something torn.
Write(w) ==
  LET put(record) == IF Replaced
                     THEN temp' = record /\ UNCHANGED files
                     ELSE files' = [files EXCEPT ![op[w].table][op[w].k] = record] /\ UNCHANGED temp IN
  /\ \/ pc[w] = "temp" /\ put(Torn) /\ Go(w, "temp2")
     \/ pc[w] = "temp2" /\ put(op[w].record) /\ Go(w, IF Replaced THEN "rename" ELSE "done")
  /\ UNCHANGED <<holder, op, seen, left, ops, crashes, faults, old, listed>>

Rename(w) ==
  /\ pc[w] = "rename"
  /\ IF temp = None      \* someone else has renamed it
     THEN Go(w, "failed") /\ UNCHANGED disk
     ELSE /\ files' = [files EXCEPT ![op[w].table][op[w].k] = temp]
          /\ temp' = None
          /\ Go(w, "done")
  /\ UNCHANGED <<holder, op, seen, left, ops, crashes, faults, old, listed>>

Order == <<"local", "remote", "servers">>
Least(xs) == CHOOSE x \in xs : \A y \in xs : x <= y

\* Records of a client are removed one after the other.
Remove(w) ==
  /\ pc[w] = "remove"
  /\ LET next == Least(left[w]) IN
     /\ files' = [files EXCEPT ![Order[next]][op[w].k] = None]
     /\ left' = [left EXCEPT ![w] = @ \ {next}]
     /\ Go(w, IF left[w] = {next} THEN "done" ELSE "remove")
  /\ UNCHANGED <<temp, holder, op, seen, ops, crashes, faults, old, listed>>

Read(w) ==
  /\ pc[w] = "read"
  /\ \E k \in left[w] :
     /\ seen' = [seen EXCEPT ![w][k] = files[op[w].table][k]]
     /\ left' = [left EXCEPT ![w] = @ \ {k}]
     /\ Go(w, IF files[op[w].table][k] = Torn THEN "failed" ELSE IF left[w] = {k} THEN "done" ELSE "read")
  /\ UNCHANGED <<disk, holder, op, ops, crashes, faults, old, listed>>

Over(w) ==
  /\ holder' = IF holder = w THEN Nobody ELSE holder
  /\ Go(w, "idle")
  /\ op' = [op EXCEPT ![w] = Idle]
  /\ seen' = [seen EXCEPT ![w] = [k \in Keys |-> None]]
  /\ left' = [left EXCEPT ![w] = {}]

Done(w) == pc[w] = "done" /\ Over(w) /\ listed' = [listed EXCEPT ![w] = seen[w]] /\ UNCHANGED <<disk, ops, crashes, faults, old>>
Fail(w) == pc[w] = "failed" /\ Over(w) /\ UNCHANGED <<disk, ops, crashes, faults, old, listed>>

Fault(w) ==
  /\ faults < MaxFaults
  /\ faults' = faults + 1
  /\ pc[w] \in {"known", "temp", "temp2", "rename", "remove", "read"}
  /\ Go(w, "failed")
  /\ UNCHANGED <<disk, holder, op, seen, left, ops, crashes, old, listed>>

\* The process dies; what's on the disk stays.
Crash ==
  /\ crashes < MaxCrashes
  /\ crashes' = crashes + 1
  /\ holder' = Nobody
  /\ pc' = [w \in Workers |-> "idle"]
  /\ op' = [w \in Workers |-> Idle]
  /\ seen' = [w \in Workers |-> [k \in Keys |-> None]]
  /\ left' = [w \in Workers |-> {}]
  /\ UNCHANGED <<disk, ops, faults, old, listed>>

Step(w) == Begin(w) \/ Lock(w) \/ Known(w) \/ Write(w) \/ Rename(w) \/ Remove(w) \/ Read(w) \/ Done(w) \/ Fail(w) \/ Fault(w)

Next == Crash \/ \E w \in Workers : Step(w)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* It is a routing table.                                                    *)

Abstract == INSTANCE Router WITH local <- files.local, remote <- files.remote, servers <- files.servers

\* Every step that is seen is that of an operation which has begun and hasn't ended.
IsRouter == [][\E w \in Workers :
                 \/ op[w].name = "index" /\ op[w].table = "local" /\ Abstract!IndexLocal(op[w].k, op[w].record)
                 \/ op[w].name = "index" /\ op[w].table = "remote" /\ Abstract!IndexRemote(op[w].k, op[w].record, TRUE)
                 \/ op[w].name = "disconnect" /\ Abstract!DisconnectPart(op[w].k)]_files

\* Whatever happened, no record is half written.
Readable == \A table \in Tables, k \in Keys : files[table][k] # Torn

\* A disconnect that succeeded leaves nothing. (While it runs, no one else adds anything.)
Gone == Locked => \A w \in Workers : pc[w] = "done" /\ op[w].name = "disconnect" => \A table \in Tables : files[table][op[w].k] = None

\* A record that was acknowledged is there, or a newer one was.
Indexed == \A w \in Workers : pc[w] = "done" /\ op[w].name = "index" =>
             \/ files[op[w].table][op[w].k] = op[w].record
             \/ op[w].table = "remote" /\ files[op[w].table][op[w].k].d > op[w].record.d
             \/ ~Locked

\* A listing is what the table was at one time.
Snapshot == \A w \in Workers : pc[w] = "done" /\ op[w].name = "list" => seen[w] = old[w][op[w].table] /\ seen[w] = files[op[w].table]

\* Of records of one client that have ever been known, no one forgets the newest unless it's disconnected.
Newest == [][\A k \in Keys : files.remote'[k] # None => files.remote[k].d <= files.remote'[k].d]_files
=============================================================================
