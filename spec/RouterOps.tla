----------------------------- MODULE RouterOps -----------------------------
(* Records of a routing table: content v, date d of the client's connection  *)
(* certificate and the client's type ty (0 and 0 for servers).               *)
EXTENDS Integers

None == [v |-> 0, d |-> 0, ty |-> 0]
AnyType == 0

\* Announcements carry certificates of different dates, and the newest one decides.
\* Which one of equally new ones does is left open.
MayKeep(old, new)    == old # None /\ old.d >= new.d
MayReplace(old, new) == old = None \/ old.d <= new.d

\* Content of the record that a lookup of the client finds.
Found(table, k, type) ==
  IF table[k] # None /\ type \in {AnyType, table[k].ty} THEN table[k].v ELSE 0
=============================================================================
