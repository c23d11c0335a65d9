------------------------------- MODULE Train --------------------------------
(* The training commands: what each may make of a tokenizer and samples.    *)
(* A tokenizer's vocabulary is a sequence of [v, s, k]; samples are a       *)
(* sequence of <<bytes, how often>>.                                        *)
EXTENDS Tokenizer, Patterns, Functions

Has(r, f) == f \in DOMAIN r

-----------------------------------------------------------------------------
(* Samples.  A source is [raw, num, den]: the bytes of a file and the       *)
(* proportion of it to use, or [reps]: samples known to be non-empty, with  *)
(* their multiplicities, all of them used, or [blocks, sep]: one long       *)
(* sample, put together from blocks which all end in the character sep.     *)

SplitNul(raw) ==
    LET st == FoldLeft(LAMBDA a, b : IF b = 0 THEN [out |-> Append(a.out, a.cur), cur |-> <<>>]
                                     ELSE [out |-> a.out, cur |-> Append(a.cur, b)],
                       [out |-> <<>>, cur |-> <<>>], raw)
    IN SelectSeq(Append(st.out, st.cur), LAMBDA x : x # <<>>)

Taken(src) ==
    IF Has(src, "reps") THEN src.reps
    ELSE IF Has(src, "blocks") THEN src.blocks
    ELSE LET all == SplitNul(src.raw)
             n == MinOf(Len(all), (Len(all) * src.num) \div src.den)
         IN [i \in 1..n |-> <<all[i], 1>>]

Samples(sources, procs) ==
    LET all == Flat([i \in 1..Len(sources) |-> Taken(sources[i])])
    IN SelectSeq([i \in 1..Len(all) |-> <<Normalise(procs, all[i][1]), all[i][2]>>], LAMBDA x : x[1] # <<>>)

\* A long sample may be taken for its blocks where no token and no pattern
\* goes beyond one: pats never accept sep and do not look at the ends of the
\* text, searches look at the whole of a text and never accept sep, and vs,
\* the tokens, have it only alone.
RECURSIVE Excludes(_, _)
Excludes(a, c) ==
    CASE a.k = "chr" -> InRanges(c, a.rs) = a.neg
      [] a.k \in {"cat", "alt"} -> \A i \in 1..Len(a.xs) : Excludes(a.xs[i], c)
      [] a.k = "rep" -> Excludes(a.x, c)
      [] OTHER -> FALSE
\* A search that accepts nothing with sep in it.
NeverWith(a, c) == a.k = "cat" /\ Len(a.xs) = 3 /\ a.xs[1].k = "bol" /\ a.xs[3].k = "eol" /\ Excludes(a.xs[2], c)
Blocky(sources, vs, pats, searches, procs) ==
    \A i \in 1..Len(sources) : Has(sources[i], "blocks") =>
        /\ procs = <<>> /\ sources[i].sep \in 1..127
        /\ \A j \in 1..Len(sources[i].blocks) :
              LET b == sources[i].blocks[j][1] IN Len(b) > 0 /\ {k \in 1..Len(b) : b[k] = sources[i].sep} = {Len(b)}
        /\ \A p \in pats : Excludes(p, sources[i].sep)
        /\ \A p \in searches : NeverWith(p, sources[i].sep)
        /\ \A v \in vs : sources[i].sep \in ToSet(v) => Len(v) = 1

\* k times as many of every sample: what pruning compares are proportions, so
\* it goes as for a k-th of them.
Thinned(samples, k) == [i \in 1..Len(samples) |-> <<samples[i][1], samples[i][2] \div k>>]
ThinnedOK(samples, k) == k > 0 /\ \A i \in 1..Len(samples) : samples[i][2] % k = 0

SampleCount(samples) == SumSeq([i \in 1..Len(samples) |-> samples[i][2]])

\* Counting: functions from byte strings to numbers.
Add(f, x, n) == IF x \in DOMAIN f THEN [f EXCEPT ![x] = @ + n] ELSE f @@ (x :> n)
Count(f, x) == IF x \in DOMAIN f THEN f[x] ELSE 0

Distinct(s) == \A i, j \in 1..Len(s) : s[i] = s[j] => i = j
Values(vocab) == {vocab[i].v : i \in 1..Len(vocab)}
Descending(vocab) == \A i \in 2..Len(vocab) : vocab[i].s <= vocab[i - 1].s

-----------------------------------------------------------------------------
(* Filter.                                                                  *)

\* How often each entry occurs.
BagOf(vocab) == FoldLeft(LAMBDA f, t : Add(f, t, 1), <<>>, vocab)

FilterOK(in, out, size, min, force) ==
    LET H == {in[i] : i \in 1..Len(in)}
        L == {out[i] : i \in 1..Len(out)}
        simple == Cardinality(H) = Len(in) /\ Cardinality(L) = Len(out)
        have == IF simple THEN <<>> ELSE BagOf(in)
        left == IF simple THEN <<>> ELSE BagOf(out)
        \* the entries that went, all or some of their copies
        gone == IF simple THEN H \ L ELSE {t \in H : have[t] > Count(left, t)}
        mayGo(t) == min # <<>> /\ t.s < min[1] /\ (force \/ ~t.k)
        removable == SumSeq([i \in 1..Len(in) |-> IF mayGo(in[i]) THEN 1 ELSE 0])
        want == IF Len(in) <= size THEN 0 ELSE MinOf(removable, Len(in) - size)
        \* the lowest score of those that stay though they might go
        stay == FoldLeft(LAMBDA acc, t : IF ~mayGo(t) \/ (acc # <<>> /\ acc[1] <= t.s) THEN acc ELSE <<t.s>>, <<>>, out)
    IN /\ IF simple THEN L \subseteq H ELSE \A t \in L : t \in H /\ left[t] <= have[t]
       /\ Len(in) - Len(out) = want
       \* lowest scores first
       /\ \A t \in gone : mayGo(t) /\ (stay # <<>> => t.s <= stay[1])
       /\ IF Len(in) <= size THEN out = in ELSE Descending(out)

-----------------------------------------------------------------------------
(* Encoding counts, where every sample has one best segmentation.           *)

\* The two best scores of different segmentations.
Top2(m, text) ==
    LET two(s) == \* the best two of a sequence of scores
            FoldLeft(LAMBDA a, x : IF a = <<>> THEN <<x>>
                                   ELSE IF x > a[1] THEN <<x, a[1]>>
                                   ELSE IF Len(a) = 1 \/ x > a[2] THEN <<a[1], x>> ELSE a, <<>>, s)
        step(acc, i) ==
            LET c == SetToSeq(Cands(m, text, i))
                all == Flat([k \in 1..Len(c) |->
                           LET t == m.vocab[c[k]] a == acc[Len(t.v)] IN [j \in 1..Len(a) |-> t.s + a[j]]])
            IN <<two(all)>> \o (IF Len(acc) >= m.lmax THEN SubSeq(acc, 1, m.lmax - 1) ELSE acc)
    IN FoldLeft(step, <<<<0>>>>, Down(Len(text)))[1]

Close(m, text, margin) == LET b == Top2(m, text) IN Len(b) = 2 /\ b[1] - b[2] <= margin

\* Every segmentation within `margin` of the best; {} if that might be more
\* than a few dozen.
NearBest(m, text, margin) ==
    LET n == Len(text)
        back(acc, i) ==
            LET opts == {m.vocab[t].s + acc[Len(m.vocab[t].v)][1] : t \in {u \in Cands(m, text, i) : acc[Len(m.vocab[u].v)] # <<>>}}
            IN <<IF opts = {} THEN <<>> ELSE <<Max(opts)>>>> \o acc
        best == FoldLeft(back, <<<<0>>>>, Down(n))
        len(t) == Len(m.vocab[t].v)
        \* what is lost by going on with t
        lost(i, t) == best[i + 1][1] - m.vocab[t].s - best[i + 1 + len(t)][1]
        steps(i) == {t \in Cands(m, text, i) : best[i + 1 + len(t)] # <<>> /\ lost(i, t) <= margin}
        count(acc, i) == <<MinOf(1000, SumSeq([k \in 1..Cardinality(steps(i)) |-> acc[len(SetToSeq(steps(i))[k])]]))>> \o acc
        many == FoldLeft(count, <<1>>, Down(n))[1] > 40
        grow(open, i) ==
            \* open: <<position, ids, margin left>>; those at i go on
            {x \in open : x[1] # i} \cup
            UNION {{<<i + len(t), Append(x[2], t - 1), x[3] - lost(i, t)>> : t \in {u \in steps(i) : lost(i, u) <= x[3]}}
                      : x \in {y \in open : y[1] = i}}
    IN IF best[1] = <<>> \/ many THEN {}
       ELSE {x[2] : x \in FoldLeft(grow, {<<0, <<>>, margin>>}, [k \in 1..n |-> k - 1])}

\* Segmentations within the margin that do not use the same tokens equally often.
Usage(ids) == FoldLeft(LAMBDA f, id : Add(f, id, 1), <<>>, ids)
Differ(m, text, margin) ==
    Close(m, text, margin) /\ LET b == NearBest(m, text, margin) IN b = {} \/ Cardinality({Usage(x) : x \in b}) > 1

\* Sequences of ids, one per sample; <<>> if some sample cannot be encoded.
EncodeAll(m, samples) == [i \in 1..Len(samples) |-> FirstBest(m, samples[i][1])]

-----------------------------------------------------------------------------
(* Merge.  o: [merges, step, mul (score of a pair's sum: the token's score  *)
(* may differ from mul * sum / 100 by slack), maxlen, allow].               *)

\* pairs -> <<least, greatest frequency>>, over the segmentations that may be
\* taken; <<>> where there are too many of them.
PairCounts(m, samples, margin) ==
    LET pairs(ids) == FoldLeft(LAMBDA g, k : Add(g, <<ids[k], ids[k + 1]>>, 1), <<>>, [k \in 1..(Len(ids) - 1) |-> k])
        in(i) == LET x == samples[i][1]
                 IN IF Close(m, x, margin) THEN {pairs(s) : s \in NearBest(m, x, margin)}
                    ELSE LET e == FirstBest(m, x) IN {pairs(e.ids)}
        raise(f, p, lo, hi) == IF p \in DOMAIN f THEN [f EXCEPT ![p] = <<@[1] + lo, @[2] + hi>>] ELSE f @@ (p :> <<lo, hi>>)
        ofSample(acc, i) ==
            LET fs == in(i)
                w == samples[i][2]
                seen == SetToSeq(UNION {DOMAIN f : f \in fs})
            IN IF fs = {} THEN [acc EXCEPT !.ok = FALSE]
               ELSE [acc EXCEPT !.f = FoldLeft(LAMBDA f, k : LET p == seen[k] IN
                                                   raise(f, p, w * Min({Count(g, p) : g \in fs}), w * Max({Count(g, p) : g \in fs})),
                                               @, [k \in 1..Len(seen) |-> k])]
    IN FoldLeft(ofSample, [ok |-> TRUE, f |-> <<>>], [i \in 1..Len(samples) |-> i])

Joined(m, p) == m.vocab[p[1] + 1].v \o m.vocab[p[2] + 1].v
Permitted(o, v) == Len(v) <= o.maxlen /\ IsMatch(o.allow, CodePoints(LossyUtf8(v)))

\* Runs the rounds of merging along the tokens actually appended.  Returns
\* "ok", "bad", or "tie" (too many ways to encode a sample: nothing is claimed).
RECURSIVE MergeRun(_, _, _, _, _)
MergeRun(vocab, new, left, samples, o) ==
    \* vocab so far; new: tokens still to be explained; left: merges allowed
    IF left = 0 THEN IF new = <<>> THEN "ok" ELSE "bad"
    ELSE
    LET m == Model(vocab)
        pc == PairCounts(m, samples, o.margin)
    IN IF ~pc.ok THEN "tie"
       ELSE
       LET counts == pc.f
           ok == {p \in DOMAIN counts : Permitted(o, Joined(m, p)) /\ BaseId([m |-> m], Joined(m, p)) = <<>>}
           limit == MinOf(o.step, left)
           \* st.n tokens of this round explained; st.seen their bytes
           step(st, k) ==
               IF st.done \/ st.bad THEN st
               ELSE LET rest == {p \in ok : counts[p][2] > 0 /\ Joined(m, p) \notin st.seen}
                        sure == {p \in rest : counts[p][1] > 0}
                    IN IF k > limit \/ rest = {} THEN [st EXCEPT !.done = TRUE]
                       ELSE IF k > Len(new) THEN IF sure = {} THEN [st EXCEPT !.done = TRUE] ELSE [st EXCEPT !.bad = TRUE]
                       ELSE LET t == new[k]
                                sum(p) == m.vocab[p[1] + 1].s + m.vocab[p[2] + 1].s
                                from == {p \in rest : /\ \A q \in rest : counts[q][1] <= counts[p][2]
                                                      /\ Joined(m, p) = t.v
                                                      /\ Abs(100 * t.s - o.mul * sum(p)) <= o.slack}
                            \* pairs that may not have been seen at all may not have been added
                            IN IF from = {} /\ sure = {} THEN [st EXCEPT !.done = TRUE]
                               ELSE IF from = {} \/ t.k THEN [st EXCEPT !.bad = TRUE]
                               ELSE [st EXCEPT !.seen = @ \cup {t.v}, !.n = k]
           end == FoldLeft(step, [done |-> FALSE, bad |-> FALSE, seen |-> {}, n |-> 0], [k \in 1..(limit + 1) |-> k])
       IN IF end.bad THEN "bad"
          ELSE IF end.n = 0 THEN IF new = <<>> THEN "ok" ELSE "bad"
          ELSE MergeRun(vocab \o SubSeq(new, 1, end.n), SubSeq(new, end.n + 1, Len(new)), left - end.n, samples, o)

MergeVerdict(in, out, samples, o) ==
    LET n == Len(in)
    IN IF Len(out) < n \/ SubSeq(out, 1, n) # in THEN "bad"
       ELSE IF Len(out) - n > o.merges THEN "bad"
       ELSE IF \E i \in (n + 1)..Len(out) : out[i].k THEN "bad"
       ELSE IF Cardinality({out[i].v : i \in (n + 1)..Len(out)} \ Values(in)) # Len(out) - n THEN "bad"
       ELSE MergeRun(in, SubSeq(out, n + 1, Len(out)), o.merges, samples, o)

-----------------------------------------------------------------------------
(* Prune, without re-estimation.  o: [target, num, den (shrink factor)].    *)

LN == JsonDeserialize(IOEnv.SPEC_DIR \o "/ln.json")     \* 100000 * ln(n), rounded

\* How far scores may be from the true ones, over a whole segmentation.
Slack(o) == IF "slack" \in DOMAIN o THEN o.slack ELSE 0

\* What one round does with each entry: "stay", "drop" or "cand", and for the
\* candidates the loss (times 100000 and the number of samples).
PruneRound(vocab, samples, o) ==
    LET m == Model(vocab)
        n == Len(vocab)
        enc == EncodeAll(m, samples)
        bump(f, i) == FoldLeft(LAMBDA g, id : [g EXCEPT ![id + 1] = @ + samples[i][2]], f, enc[i].ids)
        freq == FoldLeft(bump, [t \in 1..n |-> 0], [i \in 1..Len(samples) |-> i])
        total == SumSeq(freq)
        \* the model without entry t: how t's bytes are spelled otherwise
        without(t) == [m EXCEPT !.idx[vocab[t].v[1]] = @ \ {t}]
        alt == [t \in 1..n |-> IF vocab[t].k THEN [ok |-> FALSE, ids |-> <<>>] ELSE FirstBest(without(t), vocab[t].v)]
        gap(t) == vocab[t].s - Score(m, alt[t].ids)
        kind == [t \in 1..n |-> IF vocab[t].k \/ ~alt[t].ok THEN "stay"
                                ELSE IF freq[t] = 0 THEN "drop" ELSE "cand"]
        loss(t) ==
            LET f == freq[t]
                a == alt[t].ids
                total2 == LN[total + f * (Len(a) - 1)]
            IN f * (LN[f] - LN[total] - SumSeq([k \in 1..Len(a) |-> LN[freq[a[k] + 1] + f] - total2]))
        tie == \/ \E i \in 1..Len(samples) : Differ(m, samples[i][1], Slack(o))
               \/ \E t \in 1..n : ~vocab[t].k /\ alt[t].ok
                                  /\ (Abs(gap(t)) <= Slack(o) \/ Differ(without(t), vocab[t].v, Slack(o)))
        size == MaxOf((n * o.num) \div o.den, o.target)
    IN [tie |-> tie,
        fails |-> \E i \in 1..Len(samples) : ~enc[i].ok,
        stay |-> {t \in 1..n : kind[t] = "stay"},
        cand |-> {t \in 1..n : kind[t] = "cand"},
        loss |-> [t \in 1..n |-> IF kind[t] = "cand" THEN loss(t) ELSE 0],
        err |-> [t \in 1..n |-> IF kind[t] = "cand" THEN freq[t] * (Len(alt[t].ids) + 1) ELSE 0],
        size |-> size]

\* The sets of candidates a round may keep: the size asks for k of them, the
\* costliest ones, and which one goes first is open where the losses are
\* equal up to rounding.
Kept(r) ==
    LET k == MaxOf(0, MinOf(Cardinality(r.cand), r.size - Cardinality(r.stay)))
        above(c) == {d \in r.cand : r.loss[d] - r.err[d] > r.loss[c] + r.err[c]}
        near(c) == {d \in r.cand \ {c} : r.loss[d] + r.err[d] >= r.loss[c] - r.err[c]}
        in == {c \in r.cand : Cardinality(near(c)) < k}
        outs == {c \in r.cand : Cardinality(above(c)) >= k}
        mid == r.cand \ (in \cup outs)
    IN {in \cup x : x \in kSubset(k - Cardinality(in), mid)}

RECURSIVE PruneRun(_, _, _, _)
PruneRun(vocab, final, samples, o) ==
    \* final: the set of bytes that must come out
    IF Len(vocab) <= o.target THEN IF Values(vocab) = final THEN "ok" ELSE "bad"
    ELSE
    LET r == PruneRound(vocab, samples, o)
    IN IF r.tie THEN "tie"
       ELSE IF r.fails THEN "fails"
       ELSE LET next == {SelectSeq([i \in 1..Len(vocab) |-> i], LAMBDA i : i \in r.stay \/ i \in x) : x \in Kept(r)}
                after == {[i \in 1..Len(x) |-> vocab[x[i]]] : x \in next}
                live == {v \in after : final \subseteq Values(v)}
                ends == {IF Len(v) >= Len(vocab) THEN IF Values(v) = final THEN "ok" ELSE "bad"
                         ELSE PruneRun(v, final, samples, o) : v \in live}
            IN IF "ok" \in ends THEN "ok"
               ELSE IF "tie" \in ends THEN "tie" ELSE IF "fails" \in ends THEN "fails" ELSE "bad"

\* What holds of every pruning, whatever was estimated in between.
PruneBounds(in, out, target) ==
    /\ Values(out) \subseteq Values(in)
    /\ Distinct([i \in 1..Len(in) |-> in[i].v]) => Distinct([i \in 1..Len(out) |-> out[i].v])
    /\ {in[i].v : i \in {j \in 1..Len(in) : in[j].k}} \subseteq {out[i].v : i \in {j \in 1..Len(out) : out[j].k}}
    /\ \A i \in 1..Len(out) : out[i].k => \E j \in 1..Len(in) : in[j].v = out[i].v /\ in[j].k
    /\ Len(in) <= target => out = in

\* Nothing more could be removed: every entry that is left is protected or
\* cannot be spelled by the others.
Irreducible(out) ==
    LET m == Model(out)
    IN \A t \in 1..Len(out) : out[t].k \/ out[t].v = <<>>
           \/ ~Segmentable([m EXCEPT !.idx[out[t].v[1]] = @ \ {t}], out[t].v)

\* Without re-estimation the entries themselves are unchanged.
PruneVerdict(in, out, samples, o) ==
    IF ~PruneBounds(in, out, o.target) \/ ~(\A i \in 1..Len(out) : \E j \in 1..Len(in) : in[j] = out[i]) THEN "bad"
    ELSE IF Len(in) > o.target /\ ~Descending(out) THEN "bad"
    ELSE PruneRun(in, Values(out), samples, o)

\* Rounds with re-estimation.  stages: for each round, what it judges (the
\* scores after re-estimation, up to rounding) and what it leaves; out: what
\* all rounds in one run leave.  Scores may be two units apart.
Alike(x, y) == /\ Values(x) = Values(y) /\ Len(x) = Len(y)
               /\ \A i \in 1..Len(x), j \in 1..Len(y) : x[i].v = y[j].v => x[i].k = y[j].k /\ Abs(x[i].s - y[j].s) <= 2
AlikeInOrder(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : x[i].v = y[i].v /\ x[i].k = y[i].k /\ Abs(x[i].s - y[i].s) <= 2
StageVerdict(st, r) ==
    LET of(v) == st.in[CHOOSE i \in 1..Len(st.in) : st.in[i].v = v]
        left(x) == {st.in[t].v : t \in r.stay \cup x}
    IN IF ~(/\ Values(st.out) \subseteq Values(st.in) /\ Len(st.out) <= st.o.target
            /\ Alike([i \in 1..Len(st.out) |-> of(st.out[i].v)], st.out) /\ Descending(st.out)) THEN "bad"
       ELSE IF r.tie \/ r.fails THEN "tie"
       ELSE IF Values(st.out) \notin {left(x) : x \in Kept(r)} THEN "bad"
       ELSE IF Cardinality(Kept(r)) = 1 THEN "ok" ELSE "tie"
RoundsVerdict(stages, out, samples) ==
    LET v == [i \in 1..Len(stages) |-> StageVerdict(stages[i], PruneRound(stages[i].in, samples, stages[i].o))]
    IN IF \E i \in 1..Len(v) : v[i] = "bad" \/ (i > 1 /\ Values(stages[i].in) # Values(stages[i - 1].out)) THEN "bad"
       ELSE IF \E i \in 1..Len(v) : v[i] = "tie" THEN "tie"
       ELSE IF Alike(stages[Len(stages)].out, out) /\ Descending(out) THEN "ok" ELSE "bad"

-----------------------------------------------------------------------------
(* Re-estimation.  w: integer weights of the entries (the exponentials of   *)
(* their scores); the result is f, per entry the expected count it was      *)
(* scored by, in units of 1/unit, or -1 if the entry was dropped.           *)

ExpectedCounts(m, w, samples, unit) ==
    LET add(acc, i) ==
            LET p == Posterior(m, w, samples[i][1])
                f == samples[i][2]
                part(a) == (a \div p.z) * unit + ((a % p.z) * unit) \div p.z
            IN [t \in 1..Len(m.vocab) |-> acc[t] + part(f * p.num[t])]
    IN FoldLeft(add, [t \in 1..Len(m.vocab) |-> 0], [i \in 1..Len(samples) |-> i])

\* "ok", "bad", or "tie" (an expected count too close to the threshold).
\* Each distinct sample loses less than one unit to rounding; f itself comes
\* from inverting digamma, with a relative error far below 1/1000000.
EstimateVerdict(vocab, w, samples, f, fsum, unit) ==
    LET m == Model(vocab)
        e == ExpectedCounts(m, w, samples, unit)
        tol == Len(samples) + 2
        half == unit \div 2
        want(t) == MaxOf(e[t], half)
        survives(t) == vocab[t].k \/ e[t] >= half
        tie == \E t \in 1..Len(vocab) : ~vocab[t].k /\ Abs(e[t] - half) <= tol
        \* what pruning proper may still remove afterwards
        mayGo(t) == ~vocab[t].k /\ Segmentable([m EXCEPT !.idx[vocab[t].v[1]] = @ \ {t}], vocab[t].v)
        s == FoldSet(LAMBDA t, a : a + want(t), 0, {t \in 1..Len(vocab) : survives(t)})
    IN IF tie THEN "tie"
       ELSE IF /\ \A t \in 1..Len(vocab) :
                    IF f[t] = -1 THEN ~survives(t) \/ mayGo(t)
                    ELSE survives(t) /\ Abs(f[t] - want(t)) <= tol + want(t) \div 1000000
               /\ Abs(fsum - s) <= tol * Len(vocab) + s \div 500000
            THEN "ok" ELSE "bad"

\* Where every token is one byte, expected counts are whole, and the scores of
\* two tokens differ by digamma(q) - digamma(p) = 1/p + ... + 1/(q-1).  order:
\* tokens by ascending count; behind them <<>>, the sum of all, of score 0.
\* d: the differences between neighbours, in 1/1000000000.
RisesOK(samples, order, d) ==
    LET times(b) == SumSeq([i \in 1..Len(samples) |-> samples[i][2] * Cardinality({k \in 1..Len(samples[i][1]) : samples[i][1][k] = b})])
        f == [i \in 1..Len(order) |-> IF order[i] = <<>> THEN SumSeq([j \in 1..Len(samples) |-> samples[j][2] * Len(samples[j][1])])
                                       ELSE times(order[i][1])]
    IN /\ Len(d) = Len(order) - 1
       /\ \A i \in 1..Len(d) :
             LET n == f[i + 1] - f[i]
                 want == SumSeq([k \in 1..n |-> 1000000000 \div (f[i] + k - 1)])
             IN n >= 0 /\ Abs(d[i] - want) <= n + 2

\* A run may fail only where what survives cannot spell a sample any more.
EstimateMayFail(vocab, w, samples, unit) ==
    LET m == Model(vocab)
        e == ExpectedCounts(m, w, samples, unit)
        sure == {t \in 1..Len(vocab) : vocab[t].k \/ e[t] > unit \div 2 + Len(samples) + 2}
        left == Model(SelectSeq(vocab, LAMBDA x : \E t \in sure : vocab[t] = x))
    IN \E i \in 1..Len(samples) : ~Segmentable(left, samples[i][1])

-----------------------------------------------------------------------------
(* Generate.  o: [size, maxlen, allow, split (sequences of length 0 or 1),  *)
(* added, suggested].                                                       *)

Slices(cps, from, to, o) ==
    \* candidates within the characters from+1 .. to
    LET at(i, j) == EncodeChars(SubSeq(cps, i + 1, j))
        \* ends of the candidates that start after i characters
        ok(i) == {j \in (i + 1)..to : /\ j - i <= o.maxlen
                                      /\ Len(at(i, j)) <= o.maxlen
                                      /\ (o.allow = <<>> \/ IsMatch(o.allow[1], SubSeq(cps, i + 1, j)))}
    IN UNION {{at(i, j) : j \in ok(i)} : i \in from..(to - 1)}

Candidates(x, o) ==
    LET cps == CodePoints(x)
    IN IF o.split = <<>> THEN Slices(cps, 0, Len(cps), o)
       ELSE LET parts == FindAll(o.split[1], cps)
            IN UNION {Slices(cps, parts[k][1], parts[k][2], o) : k \in 1..Len(parts)}

Occurs(x, v) == \E i \in 0..(Len(x) - Len(v)) : MatchAt(x, i, v)

Listed(o) == o.added \o o.suggested

\* Frequencies when every candidate is admitted.  wholes: long samples, each
\* a sequence of its blocks.
Frequencies(samples, wholes, o) ==
    LET listed == FoldLeft(LAMBDA f, v : Add(f, v, 1), <<>>, Listed(o))
        ofSample(f, i) ==
            LET x == samples[i][1]
                c == Candidates(x, o) \cup {v \in ToSet(Listed(o)) : Occurs(x, v)}
            IN FoldSet(LAMBDA v, g : Add(g, v, samples[i][2]), f, c)
        ofWhole(f, bs) ==
            FoldSet(LAMBDA v, g : Add(g, v, 1), f,
                    UNION {Candidates(bs[k][1], o) \cup {v \in ToSet(Listed(o)) : Occurs(bs[k][1], v)} : k \in 1..Len(bs)})
    IN FoldLeft(ofWhole, FoldLeft(ofSample, listed, [i \in 1..Len(samples) |-> i]), wholes)

\* The preferred tokens that fit, as <<bytes, keep>>.
Preferred(o) ==
    LET listed == [i \in 1..Len(o.added) |-> <<o.added[i], TRUE>>]
                  \o [i \in 1..Len(o.suggested) |-> <<o.suggested[i], FALSE>>]
        step(acc, p) ==
            IF 256 + Len(acc) >= o.size \/ Len(p[1]) < 2 \/ \E i \in 1..Len(acc) : acc[i][1] = p[1]
            THEN acc ELSE Append(acc, p)
    IN FoldLeft(step, <<>>, listed)

\* Which tokens, whatever the insertion probability.
GeneratedOK(out, samples, o, all) ==
    LET single == {i \in 1..Len(out) : Len(out[i].v) = 1}
        multi == {i \in 1..Len(out) : Len(out[i].v) # 1}
        pref == Preferred(o)
        prefv == {pref[i][1] : i \in 1..Len(pref)}
        chosen == {out[i].v : i \in multi} \ prefv
    IN /\ Cardinality(single) = 256 /\ \A i \in single : out[i].k
       /\ {out[i].v[1] : i \in single} = 0..255
       /\ Cardinality(Values(out)) = Len(out)
       /\ prefv \subseteq Values(out)
       /\ \A i \in multi : out[i].k <=> \E j \in 1..Len(pref) : pref[j] = <<out[i].v, TRUE>>
       /\ Len(out) <= MaxOf(256, o.size)
       /\ chosen \subseteq DOMAIN all
       /\ Descending(out)

\* Exact scores: entry t has probability weight freq * length (for a byte:
\* the highest frequency) out of the sum.  The log gives each probability
\* relative to that of a byte, and that of a byte itself, as fractions.
\* q, a fraction in lowest terms, is x/y.  (No products: they may leave TLC's
\* range.)
IsRatio(q, x, y) ==
    IF x = 0 THEN q[1] = 0
    ELSE q[1] > 0 /\ q[2] > 0 /\ x % q[1] = 0 /\ y % q[2] = 0 /\ x \div q[1] = y \div q[2]

GeneratedScoresOK(out, ratio, byteProb, o, freq) ==
    LET top == IF DOMAIN freq = {} THEN 1 ELSE Max({freq[v] : v \in DOMAIN freq})
        multi == {i \in 1..Len(out) : Len(out[i].v) # 1}
        weight(i) == IF Len(out[i].v) = 1 THEN top ELSE freq[out[i].v] * Len(out[i].v)
        sum == SumSeq([i \in 1..Len(out) |-> weight(i)])
        pref == Preferred(o)
        prefv == {pref[i][1] : i \in 1..Len(pref)}
        chosen == {out[i].v : i \in multi} \ prefv
        rest == {v \in DOMAIN freq : Len(v) > 1} \ prefv
    IN /\ \A i \in multi : out[i].v \in DOMAIN freq
       /\ \A i \in 1..Len(out) : IsRatio(ratio[i], weight(i), top)
       /\ IsRatio(byteProb, top, sum)
       /\ \A i \in 2..Len(out) : weight(i) <= weight(i - 1)
       \* the most frequent others
       /\ Cardinality(chosen) = MinOf(Cardinality(rest), MaxOf(0, o.size - 256 - Cardinality(prefv)))
       /\ \A v \in chosen, u \in rest \ chosen : freq[v] >= freq[u]

-----------------------------------------------------------------------------
(* Mine.                                                                    *)

Idioms(samples, pats) ==
    LET any == Alt(pats)
        ofSample(f, i) ==
            LET cps == CodePoints(samples[i][1])
                ms == FindAll(any, cps)
            IN FoldLeft(LAMBDA g, p : Add(g, EncodeChars(SubSeq(cps, p[1] + 1, p[2])), samples[i][2]), f, ms)
    IN FoldLeft(ofSample, <<>>, [i \in 1..Len(samples) |-> i])

MinedOK(out, n, counts) ==
    /\ Distinct(out)
    /\ Len(out) = MinOf(n, Cardinality(DOMAIN counts))
    /\ ToSet(out) \subseteq DOMAIN counts
    /\ \A i \in 2..Len(out) : counts[out[i]] <= counts[out[i - 1]]
    /\ Len(out) > 0 => \A v \in DOMAIN counts \ ToSet(out) : counts[v] <= counts[out[Len(out)]]

-----------------------------------------------------------------------------
(* A training command seen from outside: what it preserves (P23).           *)
StagePreserves(cmd, a, b) ==
    \* a, b: [vocab, sp, procs] before and after; scores only compared
    LET kept(t) == {t.vocab[i].v : i \in {j \in 1..Len(t.vocab) : t.vocab[j].k}}
    IN /\ b.sp = a.sp /\ b.procs = a.procs
       /\ kept(a) \subseteq kept(b)
       /\ Cardinality(Values(b.vocab)) = Len(b.vocab)
       /\ \A i \in 1..Len(b.vocab) : b.vocab[i].s # "nonfinite"
       /\ cmd \notin {"generate", "merge"} => Values(b.vocab) \subseteq Values(a.vocab)
=============================================================================
