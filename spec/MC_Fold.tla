------------------------------- MODULE MC_Fold ------------------------------
(* Counting over samples as the training commands do it: the samples are    *)
(* cut into chunks of a size that depends on how many threads there are; a  *)
(* worker takes a chunk, counts it on its own, and then adds what it found  *)
(* to the table all share, key by key (a concurrent map) or all at once (a  *)
(* lock), in any interleaving; only when all are done the counts are read.  *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, Functions, Json, IOUtils, TLC

VARIABLES samples, threads, f, locked, left, local, shared
vars == <<samples, threads, f, locked, left, local, shared>>

Deep == IOEnv.MC_DEEP = "1"
Keys == {"x", "y"}
\* How often each key occurs in a sample.
Kinds == {[x |-> 1, y |-> 0], [x |-> 1, y |-> 2]} \cup (IF Deep THEN {[x |-> 0, y |-> 1]} ELSE {})
MaxSamples == IF Deep THEN 6 ELSE 5

ChunkSize(count, t, g) == LET s == (count \div t) \div g IN IF s < 1 THEN 1 ELSE s
Chunks == LET c == ChunkSize(Len(samples), threads, f)
          IN {<<i, IF i + c - 1 <= Len(samples) THEN i + c - 1 ELSE Len(samples)>> :
                 i \in {k \in 1..Len(samples) : (k - 1) % c = 0}}
CountIn(c) == [k \in Keys |-> FoldLeft(LAMBDA a, i : a + samples[i][k], 0, [j \in 1..(c[2] - c[1] + 1) |-> c[1] + j - 1])]
Total == CountIn(<<1, Len(samples)>>)
None == [k \in {} |-> 0]

Init == /\ samples \in UNION {[1..m -> Kinds] : m \in 0..MaxSamples}
        /\ threads \in 1..(IF Deep THEN 3 ELSE 2)
        /\ f \in {1, 2}
        /\ locked \in BOOLEAN
        /\ left = Chunks
        /\ local = [w \in 1..threads |-> None]
        /\ shared = [k \in Keys |-> 0]
Take(w) == /\ local[w] = None
           /\ \E c \in left : left' = left \ {c} /\ local' = [local EXCEPT ![w] = CountIn(c)]
           /\ UNCHANGED <<samples, threads, f, locked, shared>>
Without(fun, k) == [j \in DOMAIN fun \ {k} |-> fun[j]]
Merge(w) == /\ local[w] # None
            /\ IF locked
               THEN /\ shared' = [k \in Keys |-> shared[k] + (IF k \in DOMAIN local[w] THEN local[w][k] ELSE 0)]
                    /\ local' = [local EXCEPT ![w] = None]
               ELSE \E k \in DOMAIN local[w] : /\ shared' = [shared EXCEPT ![k] = @ + local[w][k]]
                                              /\ local' = [local EXCEPT ![w] = Without(@, k)]
            /\ UNCHANGED <<samples, threads, f, locked, left>>
Over == left = {} /\ \A w \in 1..threads : local[w] = None
Next == \E w \in 1..threads : Take(w) \/ Merge(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* The chunks are all of the samples, each once.
Partition == \A i \in 1..Len(samples) : Cardinality({c \in Chunks : c[1] <= i /\ i <= c[2]}) = 1
\* Nothing is lost or counted twice on the way.
Conserved == \A k \in Keys :
    Total[k] = shared[k] + FoldLeft(LAMBDA a, w : a + (IF k \in DOMAIN local[w] THEN local[w][k] ELSE 0), 0, [w \in 1..threads |-> w])
                         + FoldSet(LAMBDA c, a : a + CountIn(c)[k], 0, left)
Correct == Over => shared = Total
Ends == <>Over
Emit == (left = Chunks /\ locked /\ shared = [k \in Keys |-> 0] /\ \A w \in 1..threads : local[w] = None) =>
            PrintT(ToJson([samples |-> samples, threads |-> threads, f |-> f, chunk |-> ChunkSize(Len(samples), threads, f), total |-> Total]))
=============================================================================
