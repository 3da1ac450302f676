---------------------------- MODULE TensorForms -----------------------------
(* Declaring one variable of every index symmetry. *)
EXTENDS Tensor, Json
VARIABLE f
Forms == Supported \cup Upper \cup Unsupported
Out(s) == IF Accepted(s) THEN [form |-> s, ok |-> TRUE, comps |-> Components(s)] ELSE [form |-> s, ok |-> FALSE, comps |-> <<>>]
Init == f \in Forms /\ PrintT("@@" \o ToJson(Out(f)))
Next == UNCHANGED f
Spec == Init /\ [][Next]_f
AllComplete == Accepted(f) => Complete(f)
SameMeaning == \A p \in Synonyms : f = p[1] => Components(p[1]) = Components(p[2])
=============================================================================
