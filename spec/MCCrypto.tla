------------------------------ MODULE MCCrypto ------------------------------
(* All operations with all ways to be wrong, printed for being performed, and *)
(* the algebra checked: what both parties derive, what no one else does.      *)
EXTENDS Crypto, TLC, Json

CONSTANTS Keys, Messages

Salts == {<<>>, <<0>>, <<0, 0, 0>>, <<1>>, <<1, 0>>, <<0, 1>>, <<2>>, <<1, 2>>}

\* The results of an ideal derivation: a value for every pair and salt.
Ideal == {<<p, s>> : p \in {{a, b} : a, b \in Keys}, s \in {Salt(t) : t \in Salts}}

\* No key is the negative of another, or the second is that of the first.
Lines == {[k \in Keys |-> k], [k \in Keys |-> IF k = 2 THEN 1 ELSE k]}

VARIABLE line

Value(a, b, t) == <<{line[a], line[b]}, Salt(t)>>

MCNext == line' = line /\ \E a, b \in Keys, t \in Salts : Share(line, a, b, t, Value(a, b, t))

MCSpec == Init /\ line \in Lines /\ [][MCNext]_<<vars, line>>

Few == Cardinality(secrets) <= 1

\* Always possible: the algebra has a model.
Possible == \A a, b \in Keys, t \in Salts : ENABLED Share(line, a, b, t, Value(a, b, t))

\* A third party's would not be accepted as that of a pair.
Strangers == \A a, b \in Keys, t \in Salts : \A s \in secrets :
  s.of # [pair |-> {line[a], line[b]}, salt |-> Salt(t)] => ~ENABLED Share(line, a, b, t, s.value)

SignatureAlterations == {"none", "bit", "cut", "longer", "empty", "swapped", "high", "zero", "max", "der", "random", "of another message", "of another key"}
CapsuleAlterations == {"none", "bit of length", "bit of signature", "bit of message", "cut", "cut to less than its length", "longer", "empty", "boundary", "no signature", "huge", "message of another", "signature of another", "random"}
SerialisationAlterations == {"none", "bit", "cut", "cut at the start", "longer", "longer at the start", "empty", "invalid"}
Forms == {"bytes", "base64", "json", "value"}

\* Which results an operation may have; what it is about is in the operation.
Cases ==
  {[e |-> "verify", by |-> 1, over |-> m, alter |-> x, with |-> k, message |-> n] : m, n \in Messages, k \in Keys, x \in SignatureAlterations}
  \cup {[e |-> "open", by |-> 1, over |-> m, alter |-> x, with |-> k] : m \in Messages, k \in Keys, x \in CapsuleAlterations}
  \cup {[e |-> "read", kind |-> kind, key |-> k, form |-> f, alter |-> x] : kind \in {"secret", "public"}, k \in Keys, f \in Forms, x \in SerialisationAlterations}
  \cup {[e |-> "equal", a |-> a, b |-> b] : a, b \in Keys}
  \cup {[e |-> "share", a |-> a, b |-> b, salt |-> t] : a, b \in Keys, t \in Salts}

ASSUME \A c \in Cases : PrintT("CASE " \o ToJson(c))

\* A signature is good for one key and one message.
ASSUME \A k \in Keys, m \in Messages :
  Cardinality({<<with, message>> \in Keys \X Messages : "valid" \in Verified(k, m, "none", with, message)}) = 1
=============================================================================
