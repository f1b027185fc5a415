-------------------------------- MODULE Http --------------------------------
(* An HTTP server with handlers for some paths, and requests from anyone.     *)
(* A request is, in this order:                                               *)
(*   part      sent, but not all of it                                        *)
(*   sent      sent                                                           *)
(*   reached   with its handler, to which its body was given                  *)
(*   answered  answered by its handler, the answer not received yet           *)
(*   over      answered, or given up                                          *)
(* Requests are independent: whatever one does or is, the others go on.       *)
EXTENDS Naturals

Routes == {"get", "post", "both", "none"}
Methods == {"GET", "POST", "HEAD", "PUT", "DELETE", "PATCH", "OPTIONS", "get"}

\* No body, a value of the handler's type, JSON that is no such value, what is
\* no JSON, and a valid one of more than a megabyte.
Contents == {"none", "valid", "shape", "junk", "large"}

Kinds == [method : Methods, route : Routes, content : Contents]

\* The handler that the request is for.
Handler(k) == CASE k.method = "GET" /\ k.route = "get" -> "GET get"
                [] k.method = "GET" /\ k.route = "both" -> "GET both"
                [] k.method = "POST" /\ k.route = "post" -> "POST post"
                [] k.method = "POST" /\ k.route = "both" -> "POST both"
                [] k.method = "HEAD" /\ k.route = "get" -> "GET get"
                [] k.method = "HEAD" /\ k.route = "both" -> "GET both"
                [] OTHER -> "none"

\* reached, refused, or either.
Fate(k) == CASE Handler(k) = "none" -> "refused"
             [] k.method = "HEAD" -> "open"
             [] k.method = "GET" -> "reached"
             [] k.content = "valid" -> "reached"
             [] k.content = "large" -> "open"
             [] OTHER -> "refused"

\* What the handler is given.
Given(k, body) == IF k.method = "POST" THEN body ELSE ""

New(k, body) == [phase |-> "sent", kind |-> k, body |-> body, outcome |-> "", answer |-> ""]
Unfinished(k, body) == [New(k, body) EXCEPT !.phase = "part"]

Rest(r) == [r EXCEPT !.phase = "sent"]
CanReach(r, handler, body) == r.phase = "sent" /\ Fate(r.kind) # "refused" /\ handler = Handler(r.kind) /\ body = Given(r.kind, r.body)
Reach(r) == [r EXCEPT !.phase = "reached"]

\* The handler answers, answers with what can't be written, or panics.
Outcomes == {"answer", "unwritable", "panic"}
Answer(r, outcome, answer) == [r EXCEPT !.phase = "answered", !.outcome = outcome, !.answer = answer]

\* What the requester receives: an answer, none but success, or an error.
CanReceive(r, result, answer) ==
  CASE r.phase = "answered" /\ r.outcome = "answer" -> IF r.kind.method = "HEAD" THEN result = "empty" ELSE result = "answer" /\ answer = r.answer
    [] r.phase = "answered" -> result = "error"
    [] r.phase = "sent" -> Fate(r.kind) # "reached" /\ result = "error"
    [] OTHER -> FALSE
Receive(r) == [r EXCEPT !.phase = "over"]

-----------------------------------------------------------------------------
(* The other side: a client and whatever may answer it, or not.               *)
Answers == {"right", "chunked", "slow", "until closed", "large",
            "right but error", "redirected",
            "no JSON", "wrong shape", "empty", "no content", "trailing junk", "no UTF-8", "error text",
            "cut", "closed", "no HTTP", "endless redirect", "refused", "no address"}

ClientReports(way) == CASE way \in {"right", "chunked", "slow", "until closed", "large"} -> {"value"}
                        [] way \in {"right but error", "redirected"} -> {"value", "error"}
                        [] OTHER -> {"error"}

\* Whether anyone is there to see the request.
Seen(way) == way \notin {"refused", "no address"}
=============================================================================
