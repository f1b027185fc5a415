------------------------------ MODULE MCRouter ------------------------------
(* Bounded instance of Router: all its transitions are printed for replay.   *)
EXTENDS Router, Sequences, TLC, Json

CONSTANTS Clients,   \* records of clients
          Servers,   \* records of servers
          Only       \* operations in this instance

VARIABLE op

TwoClients == {[v |-> 1, d |-> 1, ty |-> 1], [v |-> 2, d |-> 2, ty |-> 2]}
TwoServers == {[v |-> 1, d |-> 0, ty |-> 0], [v |-> 2, d |-> 0, ty |-> 0]}

\* for the instance about dates
DatedClients == {[v |-> d, d |-> d, ty |-> 1 + (d % 4)] : d \in 1 .. 9}

Everything == {"local", "remote", "server", "disconnect", "lookup", "restart"}
Remote == {"remote", "disconnect", "restart"}

Init == RouterInit /\ op = [name |-> "init"]

Next ==
  \/ \E k \in Keys, c \in Clients :
        "local" \in Only /\ IndexLocal(k, c) /\ op' = [name |-> "local", k |-> k, rec |-> c, done |-> "TRUE"]
  \/ \E k \in Keys, c \in Clients, accepted \in BOOLEAN :
        /\ "remote" \in Only
        \* which of equally new ones is kept is open: recorded histories have these
        /\ remote[k] # c => remote[k].d # c.d
        /\ IndexRemote(k, c, accepted)
        /\ op' = [name |-> "remote", k |-> k, rec |-> c, done |-> IF remote[k] = c THEN "any" ELSE ToString(accepted)]
  \/ \E k \in Keys, s \in Servers :
        "server" \in Only /\ IndexServer(k, s) /\ op' = [name |-> "server", k |-> k, rec |-> s, done |-> "TRUE"]
  \/ \E k \in Keys :
        "disconnect" \in Only /\ Disconnect(k) /\ op' = [name |-> "disconnect", k |-> k]
  \/ \E k \in Keys, type \in 0 .. 3 :
        /\ "lookup" \in Only
        /\ UNCHANGED tables
        /\ op' = [name |-> "lookup", k |-> k, ty |-> type, loc |-> Found(local, k, type),
                  rem |-> Found(remote, k, type), srv |-> servers[k].v]
  \/ "restart" \in Only /\ RouterRestart /\ op' = [name |-> "restart"]

Spec == Init /\ [][Next]_<<tables, op>>

View == tables

Contents == [local |-> Listing(local), remote |-> Listing(remote), servers |-> Listing(servers)]
Edge == PrintT("EDGE " \o ToJson([f |-> Contents, op |-> op', t |-> Contents']))

-----------------------------------------------------------------------------
\* The newest date only grows until the client disconnects.
Newest == [][\A k \in Keys : remote'[k].d < remote[k].d => op'.name = "disconnect" /\ op'.k = k]_<<tables, op>>

\* An accepted record is in its table, and an operation on one key leaves all others alone.
Accepted == [][/\ op'.name = "local" => local'[op'.k] = op'.rec
               /\ op'.name = "server" => servers'[op'.k] = op'.rec
               /\ op'.name = "remote" => (remote'[op'.k] = op'.rec \/ remote'[op'.k].d >= op'.rec.d)
               /\ \A k \in Keys : (local'[k] # local[k] \/ remote'[k] # remote[k] \/ servers'[k] # servers[k])
                                     => op'.k = k]_<<tables, op>>
=============================================================================
