------------------------------- MODULE Crypto -------------------------------
(* Keys, signatures, capsules (messages with their signatures), shared        *)
(* secrets, serialisations and fresh values, as ideal as they should be.      *)
(* Keys and messages are numbers; equal numbers are equal values. What a      *)
(* cryptographic operation comes to is a set of results where it is left open *)
(* whether something malformed is an error or just not right.                 *)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLES
  secrets,  \* shared secrets that have been derived: the pair, the salt, the value
  values    \* fresh values that have been made

vars == <<secrets, values>>

Init == secrets = {} /\ values = {}

\* A signature by a key over a message, altered in some way or not, is verified with a key for a message.
Verified(by, over, alter, with, message) ==
  IF alter = "none" /\ by = with /\ over = message THEN {"valid"} ELSE {"invalid", "error"}

\* A capsule is opened: to the message, which is a number, or to nothing.
Opened(by, over, alter, with) ==
  IF alter = "none" /\ by = with THEN {over} ELSE {0}

(* A serialisation of a key is read. One of another length is none at all;    *)
(* one that differs in a bit can be one of another key.                       *)
Read(alter) == CASE alter = "none" -> {"same"}
                 [] alter = "bit" -> {"error", "another"}
                 [] OTHER -> {"error"}

Equal(a, b) == a = b

-----------------------------------------------------------------------------
\* Trailing zero bytes of a salt make no difference to HKDF, unless it is longer than a block.
RECURSIVE Strip(_)
Strip(salt) == IF salt # <<>> /\ salt[Len(salt)] = 0 THEN Strip(SubSeq(salt, 1, Len(salt) - 1)) ELSE salt
Salt(salt) == IF Len(salt) > 64 THEN salt ELSE Strip(salt)

\* The one with the secret key a and the one with the public key b. A key and its
\* negative are two keys, but one line: they derive the same.
Share(line, a, b, salt, value) ==
  LET this == [pair |-> {line[a], line[b]}, salt |-> Salt(salt)] IN
  /\ \A s \in secrets : (s.of = this) <=> (s.value = value)
  /\ secrets' = secrets \cup {[of |-> this, value |-> value]}
  /\ UNCHANGED values

\* Fresh values never repeat, and seeds are never low.
Fresh(kind, low, value) ==
  /\ kind = "seed" => ~low
  /\ <<kind, value>> \notin values
  /\ values' = values \cup {<<kind, value>>}
  /\ UNCHANGED secrets
=============================================================================
