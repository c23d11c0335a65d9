------------------------------- MODULE Chance -------------------------------
(* The options of training that leave something to chance.  Each occurrence *)
(* is decided by a draw of its own: whether a sample counts a candidate     *)
(* (generate), whether a token of several bytes may be used at a place of a *)
(* sample (prune).  A rate is num/den.  What is random is judged by how far *)
(* a total of independent draws can be from its mean: seven deviations.     *)
EXTENDS Train, Withhold

\* How often each candidate occurs in a sample: each occurrence is one draw.
Slots(cps, from, to, o) ==
    LET at(i, j) == EncodeChars(SubSeq(cps, i + 1, j))
        here(f, i) ==
            FoldLeft(LAMBDA g, j : IF /\ j - i <= o.maxlen /\ Len(at(i, j)) <= o.maxlen
                                      /\ (o.allow = <<>> \/ IsMatch(o.allow[1], SubSeq(cps, i + 1, j)))
                                   THEN Append(g, at(i, j)) ELSE g, f, [k \in 1..(to - i) |-> i + k])
    IN FoldLeft(here, <<>>, [k \in 1..(to - from) |-> from + k - 1])

\* Occurrences of a listed token: from left to right, not overlapping.
RECURSIVE Apart(_, _, _)
Apart(x, v, i) == IF i + Len(v) > Len(x) THEN 0
                  ELSE IF MatchAt(x, i, v) THEN 1 + Apart(x, v, i + Len(v)) ELSE Apart(x, v, i + 1)

\* The draws of a sample: a sequence of byte strings.
Draws(x, o) ==
    LET cps == CodePoints(x)
        parts == IF o.split = <<>> THEN <<<<0, Len(cps)>>>> ELSE FindAll(o.split[1], cps)
        own == Flat([k \in 1..Len(parts) |-> Slots(cps, parts[k][1], parts[k][2], o)])
        listed == Flat([k \in 1..Len(Listed(o)) |-> [j \in 1..Apart(x, Listed(o)[k], 0) |-> Listed(o)[k]]])
    IN own \o listed
DrawCounts(x, o) == FoldLeft(LAMBDA f, v : Add(f, v, 1), <<>>, Draws(x, o))

\* The chance, over den^m, that at least one of m draws succeeds.
SomeOf(m, num, den) == Pow(den, m) - Pow(den - num, m)

\* Beyond so many draws the numbers leave TLC's range.
AtMost(den) == IF den <= 8 THEN 4 ELSE IF den <= 40 THEN 2 ELSE 1

\* The number of samples that count v, for every v; listed ones count one
\* more for each listing.  f: sequence of <<v, frequency>>, all that came out.
InsertionOK(f, samples, o, num, den) ==
    LET draws == [i \in 1..Len(samples) |-> DrawCounts(samples[i][1], o)]
        every == UNION {DOMAIN draws[i] : i \in 1..Len(samples)} \cup ToSet(Listed(o))
        listings(v) == Cardinality({k \in 1..Len(Listed(o)) : Listed(o)[k] = v})
        got(v) == LET at == {i \in 1..Len(f) : f[i][1] = v} IN IF at = {} THEN 0 ELSE f[CHOOSE i \in at : TRUE][2]
        in(v) == {i \in 1..Len(samples) : v \in DOMAIN draws[i]}
        \* where v is drawn for equally often in the samples that have it
        same(v) == \A i, j \in in(v) : draws[i][v] = draws[j][v]
        most(v) == SumSeq([i \in 1..Len(samples) |-> IF i \in in(v) THEN samples[i][2] ELSE 0])
    IN /\ \A i \in 1..Len(f) : f[i][1] \in every
       /\ \A v \in every :
            LET l == listings(v)
                m == IF in(v) = {} THEN 0 ELSE draws[CHOOSE i \in in(v) : TRUE][v]
            IN Len(v) > 1 =>
               /\ got(v) >= l /\ got(v) - l <= most(v)
               /\ (same(v) /\ m <= AtMost(den)) => Within(got(v) - l, most(v), SomeOf(m, num, den), Pow(den, m))

\* Of pairs that lie `gap` apart in a sequence of candidates, how many came
\* out together: draws know nothing of each other.  No candidate is in two.
TogetherOK(seq, came, gap, num, den) ==
    LET firsts == {i \in 1..(Len(seq) - gap) : ((i - 1) \div gap) % 2 = 0}
        both == {i \in firsts : seq[i] \in came /\ seq[i + gap] \in came}
    IN den <= 40 => Within(Cardinality(both), Cardinality(firsts), num * num, den * den)

\* Many different candidates, each drawn for once in all: how many came out,
\* and how many of those that start, or end, at one place came out together.
CrowdOK(f, samples, o, num, den) ==
    LET draws == Flat([i \in 1..Len(samples) |-> Draws(samples[i][1], o)])
        counts == FoldLeft(LAMBDA g, v : Add(g, v, 1), <<>>, draws)
        once == {v \in DOMAIN counts : counts[v] = 1 /\ Len(v) > 1 /\ v \notin ToSet(Listed(o))}
        seq == SelectSeq(draws, LAMBDA v : v \in once)
        came == {f[i][1] : i \in {j \in 1..Len(f) : f[j][1] \in once}}
    IN /\ \A i \in 1..Len(samples) : samples[i][2] = 1
       /\ \A i \in 1..Len(f) : f[i][1] \in once => f[i][2] = 1
       /\ Within(Cardinality(came), Len(seq), num, den)
       /\ \A gap \in 1..8 : TogetherOK(seq, came, gap, num, den)

-----------------------------------------------------------------------------
(* Dropout while expected counts are collected: the places where a token of *)
(* several bytes could stand (Withhold), and the model that is left when    *)
(* some are out.                                                           *)

\* Posterior over the segmentations that avoid the places in `out`.
PosteriorBut(m, w, x, out) ==
    LET segs == {s \in Segs(m, x) : \A k \in 1..Len(s) :
                    <<SumSeq([j \in 1..(k - 1) |-> Len(m.vocab[s[j] + 1].v)]), s[k] + 1>> \notin out}
        weight(s) == FoldLeft(LAMBDA a, id : a * w[id + 1], 1, s)
        occ(s, t) == Cardinality({k \in 1..Len(s) : s[k] = t - 1})
        sum(f(_)) == FoldSet(LAMBDA s, a : a + f(s), 0, segs)
    IN [z |-> sum(weight), num |-> [t \in 1..Len(m.vocab) |-> sum(LAMBDA s : occ(s, t) * weight(s))]]

\* Mean count of each entry in one sample, in 1/unit (rounded down).
DropoutMean(m, w, x, num, den, unit) ==
    LET places == Places(m, x)
        n == Cardinality(places)
        add(out, acc) ==
            LET p == PosteriorBut(m, w, x, out)
                k == Cardinality(out)
                c == Pow(num, k) * Pow(den - num, n - k)
            IN [t \in 1..Len(m.vocab) |-> acc[t] + c * ((p.num[t] \div p.z) * unit + ((p.num[t] % p.z) * unit) \div p.z)]
    IN LET total == FoldSet(add, [t \in 1..Len(m.vocab) |-> 0], SUBSET places)
       IN [t \in 1..Len(m.vocab) |-> total[t] \div Pow(den, n)]

\* f: the estimated counts in 1/unit after one step on n times the sample x.
\* A sample's count of an entry lies between 0 and `most`: its variance is at
\* most mean * (most - mean).
DropoutOK(m, w, x, n, f, num, den, unit) ==
    LET mean == DropoutMean(m, w, x, num, den, unit)
        most(t) == Len(x) \div Len(m.vocab[t].v)
        root(k) == CHOOSE r \in 0..k : r * r >= k /\ (r = 0 \/ (r - 1) * (r - 1) < k)
        free == num = 0 \/ num = den
        wide(t) == LET top == MaxOf(most(t) * unit, mean[t]) IN root((mean[t] + 1) * (top - mean[t] + 1))
        occurs(t) == Occurs(x, m.vocab[t].v)
    IN \A t \in 1..Len(m.vocab) :
          Abs(f[t] - MaxOf(n * mean[t], unit \div 2)) <= (IF free \/ ~occurs(t) THEN 0 ELSE 7 * root(n) * wide(t)) + n + 2

\* Many samples made like x from letters of their own, each once.  fs: for
\* each, the counts in 1/unit of its tokens of several bytes, in their order
\* in m.  Each sample has one of the outcomes withholding can have, and each
\* outcome has its share.
DropCrowdOK(m, w, x, fs, num, den, unit) ==
    LET places == Places(m, x)
        n == Cardinality(places)
        long == SelectSeq([t \in 1..Len(m.vocab) |-> t], LAMBDA t : Len(m.vocab[t].v) > 1)
        counts(out) == LET p == PosteriorBut(m, w, x, out)
                       IN [j \in 1..Len(long) |-> MaxOf(unit \div 2, (unit * p.num[long[j]]) \div p.z)]
        vec == [out \in SUBSET places |-> counts(out)]
        far(f, v) == FoldLeft(LAMBDA a, j : MaxOf(a, Abs(f[j] - v[j])), 0, [j \in 1..Len(long) |-> j])
        all == {vec[out] : out \in SUBSET places}
        like(v) == {out \in SUBSET places : vec[out] = v}
        chance(v) == FoldSet(LAMBDA out, a : a + Pow(num, Cardinality(out)) * Pow(den - num, n - Cardinality(out)), 0, like(v))
        clear(v) == \A u \in all \ {v} : far(u, v) > 6
    IN /\ \A i \in 1..Len(fs) : Len(fs[i]) = Len(long) /\ \E v \in all : far(fs[i], v) <= 2
       /\ \A v \in all : clear(v) =>
             Within(Cardinality({i \in 1..Len(fs) : far(fs[i], v) <= 2}), Len(fs), chance(v), Pow(den, n))

\* Several steps, or rounds of steps, in one run: the draws are made anew in
\* each.  Every sample is one of the tokens, in letters of its own, or ballast
\* of one letter, which makes the letters so unlikely that where a token may
\* be used it is.  f: what the last step counted in 1/unit, -1 for tokens
\* that did not stay.
DropStepsOK(in, samples, f, num, den, unit) ==
    LET long == {t \in 1..Len(in) : Len(in[t].v) > 1}
        of(x) == {t \in long : in[t].v = x}
        apart(t, u) == ToSet(in[t].v) \cap ToSet(in[u].v) = {}
        used == {t \in long : \E i \in 1..Len(samples) : samples[i][1] = in[t].v}
        n(t) == SumSeq([i \in 1..Len(samples) |-> IF samples[i][1] = in[t].v THEN samples[i][2] ELSE 0])
        heavy == {i \in 1..Len(samples) : of(samples[i][1]) = {}}
        ballast == FoldSet(LAMBDA i, a : a + samples[i][2] * Len(samples[i][1]), 0, heavy)
    IN /\ \A t \in used : Cardinality(ToSet(in[t].v)) = Len(in[t].v) /\ n(t) * 200 <= ballast
       /\ \A t \in used, u \in long : t # u => apart(t, u)
       /\ \A i \in heavy : LET l == ToSet(samples[i][1]) IN Cardinality(l) = 1 /\ \A t \in used : l \cap ToSet(in[t].v) = {}
       /\ \A t \in used :
            LET slack == 2 + n(t) \div 50
                got == f[t] \div unit
            IN IF f[t] < 0 THEN ~in[t].k
               ELSE NotAbove(MaxOf(got - slack, 0), n(t), den - num, den) /\ NotBelow(got + slack, n(t), den - num, den)
=============================================================================
