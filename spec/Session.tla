------------------------------ MODULE Session ------------------------------
(* What a client makes of the answers it gets. It is free or connected to a   *)
(* server; keys of servers are numbers. Cryptography is ideal.                *)
(*                                                                            *)
(* An answer has                                                              *)
(*   shape   ok, or broken: it is no answer at all                            *)
(*   status  success or error                                                 *)
(*   key     the key that it states                                           *)
(*   by      the key that signed its proof                                    *)
(*   over    what is signed: own (the seed of the request that it answers, of *)
(*           an info answer the seed that it states), old (the seed of an     *)
(*           earlier request), other                                          *)
(*   low     the stated seed of an info answer is below 2^63                  *)
(*   ok      it is a signature at all                                         *)
(*   rec     whether the record in a lookup's answer is the right one, and if *)
(*           not, why: key, type, for (another server), by (another client),  *)
(*           sign                                                             *)
EXTENDS Naturals

CONSTANTS Servers

Free == 0

VARIABLE connected

Signed(a) == /\ a.shape = "ok"
             /\ a.status = "success"
             /\ a.by = a.key
             /\ a.over = "own"
             /\ a.ok
             /\ ~a.low

\* Whether an answer of the server that is meant to have the key (0: any) is accepted.
Accepted(a, expected) == Signed(a) /\ (expected = 0 \/ a.key = expected)

\* connect asks for the server's key first, connectto knows it.
Connect(info, a) == connected' = IF Accepted(info, 0) /\ Accepted(a, info.key) THEN info.key ELSE connected
ConnectTo(key, a) == connected' = IF Accepted(a, key) THEN key ELSE connected
Disconnect(a) == connected' = IF Accepted(a, connected) THEN Free ELSE connected

Stays == UNCHANGED connected
=============================================================================
