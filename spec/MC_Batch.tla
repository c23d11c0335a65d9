------------------------------ MODULE MC_Batch ------------------------------
(* A batch call as the workers of a pool carry it out: each claims some     *)
(* piece of the work that nobody has, works through it on its own, in any   *)
(* interleaving with the others, and puts each result where its element     *)
(* stood; after a failure nobody claims any more, and one of the failures   *)
(* is what the call returns.  Checked against the single calls.             *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, Json, IOUtils, TLC

VARIABLES n, fails, todo, busy, done, failed
vars == <<n, fails, todo, busy, done, failed>>

Deep == IOEnv.MC_DEEP = "1"
MaxN == IF Deep THEN 5 ELSE 4
Workers == 1..(IF Deep THEN 3 ELSE 2)

Single(i) == IF i \in fails THEN <<"err", i>> ELSE <<"ok", i>>
Pieces(s) == {p \in SUBSET s : p # {} /\ \A i, j \in p, k \in 1..n : (i < k /\ k < j) => k \in p}

Init == /\ n \in 0..MaxN
        /\ fails \in SUBSET (1..n)
        /\ todo = 1..n
        /\ busy = [w \in Workers |-> {}]
        /\ done = {}
        /\ failed = {}
Claim(w) == /\ busy[w] = {} /\ failed = {}
            /\ \E p \in Pieces(todo) : busy' = [busy EXCEPT ![w] = p] /\ todo' = todo \ p
            /\ UNCHANGED <<n, fails, done, failed>>
Work(w) == /\ busy[w] # {}
           /\ LET i == Min(busy[w])
              IN /\ busy' = [busy EXCEPT ![w] = IF failed # {} \/ i \in fails THEN {} ELSE @ \ {i}]
                 /\ IF i \in fails
                    THEN failed' = (IF failed = {} THEN {i} ELSE failed) /\ UNCHANGED done
                    ELSE done' = done \cup {<<i, Single(i)>>} /\ UNCHANGED failed
           /\ UNCHANGED <<n, fails, todo>>
Over == (todo = {} \/ failed # {}) /\ \A w \in Workers : busy[w] = {}
Next == \E w \in Workers : Claim(w) \/ Work(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Result == IF failed # {} THEN <<"err", CHOOSE i \in failed : TRUE>>
          ELSE <<"all", [i \in 1..n |-> (CHOOSE r \in done : r[1] = i)[2]]>>
\* What Trace!BatchOf allows.
Allowed == IF fails = {} THEN {<<"all", [i \in 1..n |-> Single(i)]>>} ELSE {<<"err", i>> : i \in fails}
Correct == Over => Result \in Allowed
Once == \A i \in 1..n : Cardinality({r \in done : r[1] = i}) <= 1
Disjoint == \A v, w \in Workers : v # w => busy[v] \cap busy[w] = {}
Ends == <>Over
Emit == (todo = 1..n /\ done = {} /\ failed = {} /\ \A w \in Workers : busy[w] = {}) =>
            PrintT(ToJson([n |-> n, fails |-> fails, allowed |-> Allowed]))
=============================================================================
