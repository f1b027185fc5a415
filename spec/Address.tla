------------------------------ MODULE Address ------------------------------
(* Addresses as they are written, and what becomes of them. A text is a       *)
(* sequence of tokens: single characters (those that mean nothing are "?"),   *)
(* except that the serialisation of a public key is one token, K1, K2, ...    *)
EXTENDS Naturals, Sequences

Keys == {"K1", "K2", "K3"}

Separator == <<":", "/", "/">>

Hyperborea == <<"h", "y", "p", "e", "r", "b", "o", "r", "e", "a">>
Hyp == <<"h", "y", "p">>
Http == <<"h", "t", "t", "p">>
Https == <<"h", "t", "t", "p", "s">>

ThinWord == <<"t", "h", "i", "n">>
ThickWord == <<"t", "h", "i", "c", "k">>
ServerWord == <<"s", "e", "r", "v", "e", "r">>
FileWord == <<"f", "i", "l", "e">>
ClientWord == <<"c", "l", "i", "e", "n", "t">>

\* Types of clients by how they are named before a key, and in a scheme.
Words == [thin |-> ThinWord, thick |-> ThickWord, server |-> ServerWord, file |-> FileWord]
Suffixes == [thin |-> ClientWord, server |-> ServerWord, file |-> FileWord]

StartsWith(text, start) == Len(text) >= Len(start) /\ SubSeq(text, 1, Len(start)) = start
After(text, start) == SubSeq(text, Len(start) + 1, Len(text))

\* Where the first separator begins, 0 if there is none.
SeparatorAt(text) ==
  LET places == {i \in 1 .. Len(text) : StartsWith(SubSeq(text, i, Len(text)), Separator)} IN
  IF places = {} THEN 0 ELSE CHOOSE i \in places : \A j \in places : i <= j

Result(kind, type, key, from) == [kind |-> kind, type |-> type, key |-> key, from |-> from]
Wrong == Result("error", "", "", 0)

Client(type, text) == IF Len(text) = 1 /\ text[1] \in Keys THEN Result("hyperborea", type, text[1], 0) ELSE Wrong

\* A type before the key is only known to the schemes that don't name one.
ClientOfAnyType(text) ==
  LET named == {type \in DOMAIN Words : StartsWith(text, Words[type] \o <<":">>)} IN
  IF named = {} THEN Client("", text)
  ELSE LET type == CHOOSE t \in named : TRUE IN Client(type, After(text, Words[type] \o <<":">>))

\* kind; type and key of a client; where the address in the text begins.
Parse(text) ==
  LET at == SeparatorAt(text)
      scheme == IF at = 0 THEN <<>> ELSE SubSeq(text, 1, at - 1)
      rest == IF at = 0 THEN text ELSE SubSeq(text, at + 3, Len(text))
      ofType == {type \in DOMAIN Suffixes : scheme \in {Hyperborea \o <<"-">> \o Suffixes[type], Hyp \o <<"-">> \o Suffixes[type]}} IN
  CASE scheme \in {Hyperborea, Hyp} -> ClientOfAnyType(rest)
    [] ofType # {} -> Client(CHOOSE t \in ofType : TRUE, rest)
    [] scheme = Http -> Result("http", "", "", at + 3)
    [] scheme = Https -> Result("https", "", "", at + 3)
    [] OTHER -> Result("raw", "", "", 1)

-----------------------------------------------------------------------------
(* Resolving. The network is what a search for the client comes to: here and  *)
(* there (found at the connected server, at another one), nowhere, or down    *)
(* (the connected server cannot be reached).                                  *)

\* Searches are made for a client of a key and a type.
Searches(text) == LET p == Parse(text) IN IF p.kind = "hyperborea" THEN <<<<p.key, p.type>>>> ELSE <<>>

Resolved(text, network) ==
  LET p == Parse(text) IN
  CASE p.kind = "error" -> "error"
    [] p.kind = "hyperborea" -> (CASE network = "nowhere" -> "not found"
                                   [] network = "down" -> "error"
                                   [] OTHER -> network)
    [] OTHER -> "verbatim"
=============================================================================
