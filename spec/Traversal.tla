----------------------------- MODULE Traversal -----------------------------
(* A server learns of other servers: beginning with those in its table, it    *)
(* asks every server it hears of for the servers known to that one.           *)
(*                                                                            *)
(* Records of servers are numbers. A network says the key and the address in  *)
(* each of them, so that several records can be of one key or at one address, *)
(* and for each address whether it answers and which records it lists.        *)
EXTENDS Naturals, FiniteSets

VARIABLES net,    \* key, at: of the records; up, lists: of the addresses
          known,  \* records heard of
          asked,  \* records whose address was asked
          done

traversalVars == <<net, known, asked, done>>

Listed(a) == IF net.up[a] THEN net.lists[a] ELSE {}

Begin(n, before) == /\ net = n
                    /\ known = before
                    /\ asked = {}
                    /\ done = FALSE

Ask(r) == /\ ~done
          /\ r \in known \ asked
          /\ asked' = asked \cup {r}
          /\ known' = known \cup Listed(net.at[r])
          /\ UNCHANGED <<net, done>>

AddressesOf(records) == {net.at[r] : r \in records}
KeysOf(records) == {net.key[r] : r \in records}

\* Everybody heard of was asked: at least once at each address.
Finish == /\ ~done
          /\ AddressesOf(known) = AddressesOf(asked)
          /\ done' = TRUE
          /\ UNCHANGED <<net, known, asked>>

\* Whether the table (records by key, 0 for none) is as it should be afterwards.
Holds(table) ==
  \A k \in DOMAIN table :
     IF k \in KeysOf(known) THEN table[k] \in known /\ net.key[table[k]] = k ELSE table[k] = 0
=============================================================================
