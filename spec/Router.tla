------------------------------- MODULE Router -------------------------------
(* Routing table of one server: the clients connected to it, the remote      *)
(* clients that were announced to it with their servers, and other servers.  *)
EXTENDS RouterOps

CONSTANT Keys

VARIABLES local, remote, servers   \* key -> record, or None

tables == <<local, remote, servers>>

RouterOf(keys) == LET empty == [k \in keys |-> None] IN local = empty /\ remote = empty /\ servers = empty

RouterInit == RouterOf(Keys)

IndexLocal(k, record)  == local' = [local EXCEPT ![k] = record] /\ UNCHANGED <<remote, servers>>
IndexServer(k, record) == servers' = [servers EXCEPT ![k] = record] /\ UNCHANGED <<local, remote>>

IndexRemote(k, record, accepted) ==
  /\ IF accepted
     THEN MayReplace(remote[k], record) /\ remote' = [remote EXCEPT ![k] = record]
     ELSE MayKeep(remote[k], record) /\ remote' = remote
  /\ UNCHANGED <<local, servers>>

\* The same record for many clients that had none.
IndexAll(table, ks, record) ==
  LET filled(old) == [k \in DOMAIN old |-> IF k \in ks THEN record ELSE old[k]] IN
  /\ local'   = IF table = "local" THEN filled(local) ELSE local
  /\ remote'  = IF table = "remote" THEN filled(remote) ELSE remote
  /\ servers' = IF table = "server" THEN filled(servers) ELSE servers

Disconnect(k) ==
  /\ local' = [local EXCEPT ![k] = None]
  /\ remote' = [remote EXCEPT ![k] = None]
  /\ servers' = [servers EXCEPT ![k] = None]

\* A disconnect that was cut short: some of the records are gone.
DisconnectPart(k) ==
  /\ local' \in {local, [local EXCEPT ![k] = None]}
  /\ remote' \in {remote, [remote EXCEPT ![k] = None]}
  /\ servers' \in {servers, [servers EXCEPT ![k] = None]}

\* Content that a listing has for every key.
Listing(table) == [k \in DOMAIN table |-> table[k].v]

RouterRestart == UNCHANGED tables
=============================================================================
