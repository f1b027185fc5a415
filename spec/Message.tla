------------------------------ MODULE Message ------------------------------
(* Messages as they are written and read. A message has two parts, content    *)
(* and sign, and a label that tells how they're written. Each part is         *)
(*   what     "content" or "sign": which of the two it was written as         *)
(*   n        the content that it is, or that is signed                       *)
(*   from,to  the parties of the message that it was written for              *)
(*   enc,comp how it was encrypted and compressed                             *)
(*   damage   "none", or what was done to it after that                       *)
(* Whoever can damage, mix and relabel parts can't do more than that.         *)
EXTENDS Naturals, Sequences

Contents == {1, 2}
Encryptions == {"none", "aes", "chacha"}
Compressions == {"none", "deflate", "brotli"}

Term(what, n, from) == [what |-> what, n |-> n, from |-> from]
Nothing == Term("nothing", 0, 0)
Other == Term("other", 0, 0)

Original(part) == Term(part.what, part.n, part.from)

\* What damaged or mistaken compressed data can be read as.
Junk(part) == {Nothing, Other, Original(part)} \cup {Term("content", n, 0) : n \in Contents}

(* What a part is read as, labelled and with the secret of these parties: a   *)
(* set, because damaged compressed data can be anything.                      *)
Decoded(part, label, parties) ==
  CASE label.enc # "none" /\ (part.damage # "none" \/ part.enc # label.enc \/ {part.from, part.to} # parties) -> {Nothing}
    [] label.comp # "none" /\ (part.damage # "none" \/ part.enc # label.enc \/ part.comp # label.comp) -> Junk(part)
    [] part.damage # "none" \/ part.enc # label.enc \/ part.comp # label.comp -> {Nothing, Other}
    [] OTHER -> {Original(part)}

\* The result is the number of the content, 0 for an error.
Results(content, sign, label, receiver, sender) ==
  LET parties == {receiver, sender} IN
  {IF c.what = "content" /\ s = Term("sign", c.n, sender) THEN c.n ELSE 0 :
     c \in Decoded(content, label, parties), s \in Decoded(sign, label, parties)}

\* Who isn't a party sees nothing of an encrypted message.
Hidden(enc, seen) == enc # "none" => ~seen
=============================================================================
