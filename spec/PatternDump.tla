---------------------------- MODULE PatternDump -----------------------------
(* Prints every named pattern, for the generator of texts to try.           *)
EXTENDS Patterns, TLC, Json
VARIABLE n
Init == n \in Names
Next == n \in Names /\ PrintT(ToJson([name |-> n, ast |-> Named(n)])) /\ n' = ""
Spec == Init /\ [][Next]_n
=============================================================================
