-------------------------------- MODULE Wire --------------------------------
(* What protocol values look like when they are written, and which documents  *)
(* are read as one. A document is what a value is written as, with changes at *)
(* some paths. A path is a sequence of names, "*" for an item of a list.      *)
EXTENDS Naturals, Sequences, FiniteSets

F(name, kind) == [name |-> name, kind |-> kind]

\* Types of values that have fields, by name.
Bodies == [
  connect |-> <<F("certificate", "certificate"), F("client", "info")>>,
  connected |-> <<>>,
  disconnect |-> <<>>,
  disconnected |-> <<>>,
  announceclient |-> <<F("announce", "tag"), F("client", "client"), F("server", "server")>>,
  announceserver |-> <<F("announce", "tag"), F("server", "server")>>,
  announced |-> <<>>,
  lookup |-> <<F("public_key", "key"), F("type", "any type")>>,
  local |-> <<F("disposition", "tag"), F("client", "client"), F("available", "bool")>>,
  remote |-> <<F("disposition", "tag"), F("client", "client"), F("server", "server"), F("available", "bool")>>,
  hint |-> <<F("disposition", "tag"), F("servers", "servers")>>,
  send |-> <<F("sender", "sender"), F("receiver", "receiver"), F("channel", "text"), F("message", "message")>>,
  sent |-> <<>>,
  poll |-> <<F("channel", "text"), F("limit", "limit")>>,
  polled |-> <<F("messages", "messages"), F("remaining", "number")>>]

Parts == [
  info |-> <<F("type", "type"), F("address", "any text")>>,
  certificate |-> <<F("token", "token"), F("sign", "bytes")>>,
  client |-> <<F("public_key", "key"), F("certificate", "certificate"), F("client", "info")>>,
  server |-> <<F("public_key", "key"), F("address", "text")>>,
  sender |-> <<F("client", "client"), F("server", "server")>>,
  receiver |-> <<F("public_key", "key")>>,
  message |-> <<F("content", "text"), F("sign", "text"), F("encoding", "encoding")>>,
  letter |-> <<F("sender", "sender"), F("channel", "text"), F("message", "message"), F("received_at", "number")>>,
  proof |-> <<F("seed", "number"), F("sign", "bytes")>>,
  signature |-> <<F("sign", "bytes")>>,
  identity |-> <<F("public_key", "key")>>,
  information |-> <<F("standard", "standard"), F("server", "identity"), F("proof", "proof")>>,
  failed |-> <<F("standard", "standard"), F("status", "status"), F("reason", "text")>>,
  allclients |-> <<F("standard", "standard"), F("clients", "clients")>>,
  allservers |-> <<F("standard", "standard"), F("servers", "servers")>>]

Lists == [servers |-> "server", clients |-> "client", messages |-> "letter"]

RequestOf(body) == <<F("standard", "standard"), F("public_key", "key"), F("proof", "proof"), F("request", body)>>
AnswerOf(body) == <<F("standard", "standard"), F("status", "status"), F("public_key", "key"), F("proof", "signature"), F("response", body)>>

RequestBodies == {"connect", "disconnect", "announceclient", "announceserver", "lookup", "send", "poll"}
AnswerBodies == {"connected", "disconnected", "announced", "local", "remote", "hint", "sent", "polled"}

\* What is written on its own: [form, of].
Types == {[form |-> "value", of |-> t] : t \in {"info", "certificate", "client", "server", "sender", "message", "letter", "information", "allclients", "allservers", "servers"} \cup DOMAIN Bodies}
           \cup {[form |-> "request", of |-> b] : b \in RequestBodies}
           \cup {[form |-> "answer", of |-> b] : b \in AnswerBodies}
           \cup {[form |-> "error", of |-> b] : b \in AnswerBodies}

Composite(kind) == kind \in DOMAIN Bodies \cup DOMAIN Parts

Fields(kind) == IF kind \in DOMAIN Bodies THEN Bodies[kind] ELSE Parts[kind]

TypeFields(type) == CASE type.form = "request" -> RequestOf(type.of)
                      [] type.form = "answer" -> AnswerOf(type.of)
                      [] type.form = "error" -> Parts.failed
                      [] type.of \in DOMAIN Lists -> <<>>
                      [] OTHER -> Fields(type.of)

\* The kind of what is at the path.
RECURSIVE KindAt(_, _)
KindIn(fields, path) == KindAt((CHOOSE f \in {fields[i] : i \in 1 .. Len(fields)} : f.name = path[1]).kind, Tail(path))
KindAt(kind, path) == CASE path = <<>> -> kind
                        [] kind \in DOMAIN Lists -> KindAt(Lists[kind], Tail(path))
                        [] OTHER -> KindIn(Fields(kind), path)

KindOf(type, path) == CASE path = <<>> -> IF TypeFields(type) = <<>> THEN type.of ELSE "record"
                        [] type.form = "value" /\ type.of \in DOMAIN Lists -> KindAt(type.of, path)
                        [] OTHER -> KindIn(TypeFields(type), path)

\* All paths within.
RECURSIVE PathsAt(_)
PathsIn(fields) == UNION {{<<fields[i].name>> \o path : path \in PathsAt(fields[i].kind)} : i \in 1 .. Len(fields)}
PathsAt(kind) == {<<>>} \cup (CASE kind \in DOMAIN Lists -> {<<"*">> \o path : path \in PathsAt(Lists[kind])}
                              [] Composite(kind) -> PathsIn(Fields(kind))
                              [] OTHER -> {})
Paths(type) == IF type.form = "value" /\ type.of \in DOMAIN Lists THEN PathsAt(type.of) ELSE {<<>>} \cup PathsIn(TypeFields(type))

-----------------------------------------------------------------------------
(* Changes: what is at the path is taken away or replaced: by a JSON value of *)
(* some type, by another one of its own kind, or by a damaged one.            *)
Changes == {"missing", "null", "bool", "int", "negative", "fraction", "huge", "text", "empty", "list", "object", "another", "damaged"}

\* What has no value of its own kind: anything else may be read as such.
Optional == {"any text", "any type"}
Empty == {k \in DOMAIN Bodies : Bodies[k] = <<>>}

Read(kind) == CASE kind = "text" -> {"text", "empty", "another"}
                [] kind = "number" -> {"int", "another"}
                [] kind = "bool" -> {"bool", "another"}
                [] kind = "bytes" -> {"empty", "another"}
                [] kind \in {"key", "token", "type", "encoding"} -> {"another"}
                [] kind = "any text" -> {"null", "text", "empty", "another"}
                [] kind = "any type" -> {"null", "another"}
                [] kind = "limit" -> {"null", "int", "another"}
                [] kind \in DOMAIN Lists -> {"list", "another"}
                [] OTHER -> {}

\* Left open: it may be taken for nothing, or for another variant of the value.
Open(kind) == CASE kind = "any text" -> Changes
                [] kind = "any type" -> Changes \ {"text", "empty", "damaged"}
                [] kind = "limit" -> {"missing"}
                [] kind \in {"tag", "status"} -> {"another"}
                [] kind \in Empty -> Changes \ {"missing"}
                [] OTHER -> {}

Verdict(type, path, change) ==
  LET kind == KindOf(type, path) IN
  CASE path # <<>> /\ path[Len(path)] = "*" /\ change = "missing" -> {"read"}
    [] change \in Read(kind) -> {"read"}
    [] change \in Open(kind) -> {"read", "rejected"}
    [] OTHER -> {"rejected"}

\* Changes at several paths, none within another.
Verdicts(type, changes) ==
  IF changes = {} THEN {"same"}
  ELSE LET all == {Verdict(type, c.path, c.change) : c \in changes} IN
       IF {"rejected"} \in all THEN {"rejected"}
       ELSE IF \E v \in all : v = {"read", "rejected"} THEN {"read", "rejected"} ELSE {"read"}
=============================================================================
