------------------------------- MODULE NBest --------------------------------
(* The n best segmentations, and exact marginals.  A path is a sequence of  *)
(* nodes [id, pos, len, s].                                                 *)
EXTENDS Segment, Functions

PathIds(p) == [i \in 1..Len(p) |-> p[i].id]
PathScore(m, p) == Score(m, PathIds(p))

PathOK(m, text, p) ==
    LET ids == PathIds(p)
    IN /\ IdsInRange(m, ids) /\ Live(m, ids) /\ Spells(m, ids, text)
       /\ \A i \in 1..Len(p) :
             /\ p[i].len = Len(m.vocab[p[i].id + 1].v)
             /\ p[i].s = m.vocab[p[i].id + 1].s
             /\ p[i].pos = IF i = 1 THEN 0 ELSE p[i - 1].pos + p[i - 1].len

\* How many segmentations reach each score (counts capped).
Cap == 100000
Histogram(m, text) ==
    LET shift(h, by) == [v \in {x + by : x \in DOMAIN h} |-> h[v - by]]
        plus(h, g) == [v \in DOMAIN h \cup DOMAIN g |->
                          MinOf(Cap, (IF v \in DOMAIN h THEN h[v] ELSE 0) + (IF v \in DOMAIN g THEN g[v] ELSE 0))]
        step(acc, i) ==
            LET h == FoldSet(LAMBDA t, a : plus(a, shift(acc[Len(m.vocab[t].v)], m.vocab[t].s)),
                             <<>>, Cands(m, text, i))
            IN <<h>> \o (IF Len(acc) >= m.lmax THEN SubSeq(acc, 1, m.lmax - 1) ELSE acc)
    IN FoldLeft(step, <<[v \in {0} |-> 1]>>, Down(Len(text)))[1]

NBestOK(m, text, n, paths) ==
    LET h == Histogram(m, text)
        total == FoldFunction(LAMBDA x, y : MinOf(Cap, x + y), 0, h)
        sc == [i \in 1..Len(paths) |-> PathScore(m, paths[i])]
        count == FoldLeft(LAMBDA c, s : [c EXCEPT ![s] = @ + 1], [s \in ToSet(sc) |-> 0], sc)
    IN /\ \A i \in 1..Len(paths) : PathOK(m, text, paths[i])
       /\ Len(paths) = MinOf(n, total)
       /\ Cardinality({PathIds(paths[i]) : i \in 1..Len(paths)}) = Len(paths)
       /\ \A i \in 2..Len(sc) : sc[i] <= sc[i - 1]
       /\ Len(sc) > 0 =>
            /\ \A v \in DOMAIN h : v > sc[Len(sc)] => (v \in DOMAIN count /\ count[v] = h[v])
            /\ \A v \in DOMAIN count : v \in DOMAIN h /\ count[v] <= h[v]

\* hist: <<score, how many results>> by descending score, of the n best.
HistogramOK(m, text, n, hist) ==
    LET h == Histogram(m, text)
        last == Len(hist)
        sum == FoldLeft(LAMBDA a, e : a + e[2], 0, hist)
        total == FoldFunction(LAMBDA x, y : MinOf(Cap, x + y), 0, h)
    IN /\ sum = MinOf(n, total)
       /\ \A i \in 1..last : /\ hist[i][1] \in DOMAIN h
                             /\ IF i < last THEN hist[i][2] = h[hist[i][1]] ELSE hist[i][2] <= h[hist[i][1]]
       /\ last > 0 => \A v \in DOMAIN h : v > hist[last][1] => \E i \in 1..last : hist[i][1] = v

\* s: one sentence's replies, projected: z is exp of the normaliser, own and
\* acc the amounts added to each token's expected count times Z (into a fresh
\* table and into one shared by all sentences).
MarginalOK(m, w, s) ==
    LET p == Posterior(m, w, s.x)
    IN s.z = p.z /\ s.zacc = p.z /\ s.own = p.num /\ s.acc = p.num

\* A long sentence, as blocks <<bytes, how many>> each of which ends in a byte
\* that only a token of its own contains: the segmentations of the blocks are
\* independent.  f: the expected counts, in units of 1/unit.
MarginalBlocksOK(m, w, sep, blocks, f, unit) ==
    LET add(acc, i) ==
            LET p == Posterior(m, w, blocks[i][1])
                part(a) == (a \div p.z) * unit + ((a % p.z) * unit) \div p.z
            IN [t \in 1..Len(m.vocab) |-> acc[t] + part(blocks[i][2] * p.num[t])]
        e == FoldLeftDomain(add, [t \in 1..Len(m.vocab) |-> 0], blocks)
        tol == Len(blocks) + 2
    IN /\ \A t \in 1..Len(m.vocab) : Len(m.vocab[t].v) = 1 \/ \A k \in 1..Len(m.vocab[t].v) : m.vocab[t].v[k] # sep
       /\ \A i \in 1..Len(blocks) : LET x == blocks[i][1] IN \A k \in 1..Len(x) : x[k] = sep <=> k = Len(x)
       /\ \A t \in 1..Len(m.vocab) : Abs(f[t] - e[t]) <= tol + e[t] \div 1000000
=============================================================================
