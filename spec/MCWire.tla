------------------------------- MODULE MCWire -------------------------------
(* Every type with every change at every path, printed for the real code.     *)
EXTENDS Wire, TLC, Json

VARIABLE case

Init == case \in UNION {[type : {t}, path : Paths(t), change : Changes] : t \in Types}
Next == FALSE /\ UNCHANGED case
Spec == Init /\ [][Next]_case

Case == (case.path = <<>> => case.change # "missing") => PrintT("CASE " \o ToJson(case))

\* Whatever has a field: what is required is required at any depth, and nothing but it.
Required == case.change = "missing" /\ case.path # <<>> /\ case.path[Len(case.path)] # "*" =>
  (Verdict(case.type, case.path, "missing") # {"rejected"}) = (KindOf(case.type, case.path) \in Optional \cup {"limit"})

\* Only what has alternatives is read otherwise.
Typed == case.change = "object" => ("read" \in Verdict(case.type, case.path, "object")) = (KindOf(case.type, case.path) \in Optional \cup Empty)

\* The only standard is the first.
Standard == KindOf(case.type, case.path) = "standard" => Verdict(case.type, case.path, case.change) = {"rejected"}
=============================================================================
