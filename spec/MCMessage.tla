----------------------------- MODULE MCMessage -----------------------------
(* A message from 1 to 2, changed in up to Changes ways, read by anyone as    *)
(* anyone's, printed for the real code; and what the specification promises.  *)
EXTENDS Message, TLC, Json, FiniteSets

CONSTANT Changes

VARIABLES content, sign, label, receiver, sender, changed

vars == <<content, sign, label, receiver, sender, changed>>

Labels == [enc : Encryptions, comp : Compressions]
Damages == {"bit", "cut", "longer", "empty", "invalid", "random"}
Parties == {1, 2, 3}

Part(what, l) == [what |-> what, n |-> 1, from |-> 1, to |-> 2, enc |-> l.enc, comp |-> l.comp, damage |-> "none"]

Init == /\ label \in Labels
        /\ content = Part("content", label)
        /\ sign = Part("sign", label)
        /\ receiver = 2 /\ sender = 1
        /\ changed = 0

\* A part in place of this one: of another message, or damaged.
Others(part) ==
  {[part EXCEPT !.n = 2], [part EXCEPT !.from = 3], [part EXCEPT !.to = 3], [part EXCEPT !.from = 2, !.to = 1]}
  \cup {[part EXCEPT !.what = IF @ = "content" THEN "sign" ELSE "content"]}
  \cup {[part EXCEPT !.damage = d] : d \in Damages}
  \cup {[part EXCEPT !.enc = l.enc, !.comp = l.comp] : l \in Labels}

Changed == changed' = changed + 1

Next == /\ changed < Changes
        /\ \/ content' \in Others(content) /\ UNCHANGED <<sign, label, receiver, sender>> /\ Changed
           \/ sign' \in Others(sign) /\ UNCHANGED <<content, label, receiver, sender>> /\ Changed
           \/ label' \in Labels /\ UNCHANGED <<content, sign, receiver, sender>> /\ Changed
           \/ receiver' \in Parties /\ UNCHANGED <<content, sign, label, sender>> /\ Changed
           \/ sender' \in Parties /\ UNCHANGED <<content, sign, label, receiver>> /\ Changed

Spec == Init /\ [][Next]_vars

View == <<content, sign, label, receiver, sender>>

Case == PrintT("CASE " \o ToJson([content |-> content, sign |-> sign, label |-> label, receiver |-> receiver, sender |-> sender, plain |-> changed = 0]))

All == Results(content, sign, label, receiver, sender)

\* The one that it is for reads it.
Readable == changed = 0 => All = {1}

\* Only what the claimed sender wrote and signed is read.
Authentic == \A n \in All \ {0} :
  /\ sign.what = "sign" /\ sign.n = n /\ sign.from = sender
  /\ label.comp = "none" => content.what = "content" /\ content.n = n

\* An encrypted message is only read by its parties, and only undamaged.
Private == label.enc # "none" /\ All # {0} =>
  \A part \in {content, sign} : {part.from, part.to} = {receiver, sender} /\ part.damage = "none" /\ part.enc = label.enc

\* The same content written by the other party, which is written alike.
Reflected == [Part("content", label) EXCEPT !.from = 2, !.to = 1]

\* One change is enough to make an encrypted message unreadable.
Single == changed = 1 /\ label.enc # "none" /\ 0 \notin All =>
  /\ content \in {Part("content", label), Reflected} /\ sign = Part("sign", label) /\ receiver = 2 /\ sender = 1
=============================================================================
