------------------------------ MODULE Withhold ------------------------------
(* Dropout as a probability: at each place where a token of several bytes   *)
(* could stand, a draw of its own decides whether it may; what is left is   *)
(* segmented as well as it can be.  From that follows, for a short text,    *)
(* the chance of every outcome.  Rates are num/den.  What came out of many  *)
(* runs is judged by how far a total of independent draws can be from its   *)
(* mean: seven deviations.                                                  *)
EXTENDS Segment

RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)

\* At most seven deviations (and one) above, or below, the mean of n draws of
\* chance q/d each; exact where nothing is left to chance.
NotAbove(got, n, q, d) ==
    LET off == (got * d - n * q) \div d
    IN IF q = 0 \/ q = d THEN got * d <= n * q
       ELSE off <= 1 \/ (off - 1) * (off - 1) <= 49 * ((((n * q) \div d) * (d - q)) \div d + 2)
NotBelow(got, n, q, d) ==
    LET off == (n * q - got * d) \div d
    IN IF q = 0 \/ q = d THEN got * d >= n * q
       ELSE off <= 1 \/ (off - 1) * (off - 1) <= 49 * ((((n * q) \div d) * (d - q)) \div d + 2)
Within(got, n, q, d) == NotAbove(got, n, q, d) /\ NotBelow(got, n, q, d)

\* Where tokens of several bytes could stand.
Places(m, x) == UNION {{<<i, t>> : t \in {u \in Cands(m, x, i) : Len(m.vocab[u].v) > 1}} : i \in 0..(Len(x) - 1)}

\* The best segmentations that avoid the places in `out`.
BestBut(m, x, segs, out) ==
    LET start(s, k) == SumSeq([j \in 1..(k - 1) |-> Len(m.vocab[s[j] + 1].v)])
        left == {s \in segs : \A k \in 1..Len(s) : <<start(s, k), s[k] + 1>> \notin out}
        top == Max({Score(m, s) : s \in left})
    IN IF left = {} THEN {} ELSE {s \in left : Score(m, s) = top}

\* outs: sequence of <<outcome, how often>> of n runs on x; an outcome is
\* <<ids>>, or <<>> for a failure.  With ties an outcome has at least the
\* chance of the draws that leave no other, at most that of those that
\* allow it.
OutcomesOK(m, x, num, den, n, outs) ==
    LET places == Places(m, x)
        k == Cardinality(places)
        segs == Segs(m, x)
        best == [out \in SUBSET places |-> LET b == BestBut(m, x, segs, out) IN IF b = {} THEN {<<>>} ELSE {<<s>> : s \in b}]
        chance(out) == Pow(num, Cardinality(out)) * Pow(den - num, k - Cardinality(out))
        total(outsets) == FoldSet(LAMBDA out, a : a + chance(out), 0, outsets)
        least(o) == total({out \in SUBSET places : best[out] = {o}})
        most(o) == total({out \in SUBSET places : o \in best[out]})
        got(o) == SumSeq([i \in 1..Len(outs) |-> IF outs[i][1] = o THEN outs[i][2] ELSE 0])
    IN /\ SumSeq([i \in 1..Len(outs) |-> outs[i][2]]) = n
       /\ \A o \in UNION {best[out] : out \in SUBSET places} \cup {outs[i][1] : i \in 1..Len(outs)} :
             NotAbove(got(o), n, most(o), Pow(den, k)) /\ NotBelow(got(o), n, least(o), Pow(den, k))

\* The same of lattices: every place that was drawn for, and the single bytes.
\* outs: sequence of <<nodes, how often>>, a node being <<position, token>>.
NodesOK(m, x, num, den, n, outs) ==
    LET places == Places(m, x)
        k == Cardinality(places)
        always == {<<i, t>> : i \in 0..(Len(x) - 1), t \in 1..Len(m.vocab)} \cap
                  UNION {{<<i, t>> : t \in {u \in Cands(m, x, i) : Len(m.vocab[u].v) = 1}} : i \in 0..(Len(x) - 1)}
        got(in) == SumSeq([i \in 1..Len(outs) |-> IF ToSet(outs[i][1]) = in THEN outs[i][2] ELSE 0])
    IN /\ SumSeq([i \in 1..Len(outs) |-> outs[i][2]]) = n
       /\ \A i \in 1..Len(outs) : /\ always \subseteq ToSet(outs[i][1]) /\ ToSet(outs[i][1]) \subseteq always \cup places
                                  /\ Cardinality(ToSet(outs[i][1])) = Len(outs[i][1])
       /\ \A in \in SUBSET places :
             Within(got(in \cup always), n, Pow(den - num, Cardinality(in)) * Pow(num, k - Cardinality(in)), Pow(den, k))
=============================================================================
