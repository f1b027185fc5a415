----------------------------- MODULE MCAddress -----------------------------
(* Texts made of all the pieces that matter, printed for being parsed and     *)
(* resolved by the real code, and the documented table checked on them.       *)
EXTENDS Address, TLC, Json

VARIABLES text, network

Schemes == {Hyperborea, Hyp, Http, Https, <<>>, <<"f", "t", "p">>, <<"H", "t", "t", "p">>, Hyp \o <<"-">>, Hyperborea \o <<"-">> \o ThickWord, <<"?">> \o Http, Http \o <<"?">>}
             \cup {s \o <<"-">> \o w : s \in {Hyperborea, Hyp}, w \in {ClientWord, ServerWord, FileWord, ThinWord}}
Separators == {Separator, <<":">>, <<":", "/">>, <<":", "/", "/", "/">>, Separator \o Separator, <<>>}
Prefixes == {<<>>, <<":">>, ClientWord \o <<":">>, <<"?", ":">>} \cup {Words[t] \o <<":">> : t \in DOMAIN Words} \cup {Words[t] \o <<":">> \o Words[u] \o <<":">> : t, u \in DOMAIN Words}
Bodies == {<<"K1">>, <<"K2">>, <<"?", "?">>, <<>>, <<"K1", "?">>, <<"?", "K2">>, <<"K1", "K2">>, <<"?">> \o Separator \o <<"K1">>}

Init == /\ text \in {s \o p \o f \o b : s \in Schemes, p \in Separators, f \in Prefixes, b \in Bodies}
        /\ network \in {"here"}
        /\ PrintT("CASE " \o ToJson(text))
Next == FALSE /\ UNCHANGED <<text, network>>
Spec == Init /\ [][Next]_<<text, network>>

Row(scheme, prefix, type) ==
  \A k \in Keys : Parse(scheme \o Separator \o prefix \o <<k>>) = Result("hyperborea", type, k, 0)

\* The table of the documentation.
ASSUME /\ Row(Hyperborea, <<>>, "") /\ Row(Hyp, <<>>, "")
       /\ \A s \in {Hyperborea, Hyp} : /\ Row(s \o <<"-">> \o ClientWord, <<>>, "thin")
                                       /\ Row(s \o <<"-">> \o ServerWord, <<>>, "server")
                                       /\ Row(s \o <<"-">> \o FileWord, <<>>, "file")
                                       /\ \A t \in DOMAIN Words : Row(s, Words[t] \o <<":">>, t)
       /\ Parse(Http \o Separator \o <<"?">>) = Result("http", "", "", 8)
       /\ Parse(Https \o Separator \o <<"?">>) = Result("https", "", "", 9)

\* A key is the one that is written, and only what says so is a client.
Sound == LET p == Parse(text) IN
  /\ p.kind = "hyperborea" => p.key = text[Len(text)] /\ StartsWith(text, Hyp)
  /\ p.kind \in {"http", "https"} => StartsWith(text, Http)
  /\ p.kind = "raw" => p.from = 1
  /\ Len(Searches(text)) > 0 <=> p.kind = "hyperborea"
  /\ Resolved(text, network) = "verbatim" <=> p.kind \in {"http", "https", "raw"}
=============================================================================
