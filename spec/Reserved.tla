------------------------------- MODULE Reserved ------------------------------
(* Names that may be given to fields, constants, functions and terms. In the  *)
(* text of an equation a leading "-" is a sign, "*" separates factors, and a  *)
(* leading LAP (with or without a power) is the Laplacian, so a name that     *)
(* starts with one of these could never be told from an operator applied to   *)
(* the rest of the name. Such names are refused; any other name is accepted,  *)
(* also one that holds an operator word further in.                           *)
EXTENDS Sequences, TLC, Json
Kinds == {"field", "scalar", "function", "implicit", "explicit", "mixed"}
Words == {"", "-", "*", "LAP", "LAP^2", "LAP^4"}
Bodies == {"c", "eta", "xLAP", "lap", "L", "LA", "cLAP^2", "P"}
Operators == Words \ {""}
VARIABLES kind, word, body, table
vars == <<kind, word, body, table>>
Init == kind \in Kinds /\ word \in Words /\ body \in Bodies /\ table = {}
Name == word \o body
Verdict == IF word \in Operators THEN "refused" ELSE "accepted"
(* registering: a refused name never enters the table of names *)
Register == /\ Name \notin table
            /\ table' = IF Verdict = "refused" THEN table ELSE table \cup {Name}
            /\ UNCHANGED <<kind, word, body>>
Next == Register
Spec == Init /\ [][Next]_vars
(* every name in the table is unambiguous: no operator word followed by a known body spells it *)
Unambiguous == \A o \in Operators, b \in Bodies : (o \o b) \notin table
Emit == table = {} => PrintT("@@N " \o ToJson([kind |-> kind, name |-> Name, verdict |-> Verdict]))
=============================================================================
