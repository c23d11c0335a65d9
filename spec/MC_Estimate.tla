----------------------------- MODULE MC_Estimate ---------------------------
(* Re-estimation as a machine: samples are taken one at a time, in any      *)
(* order, and each adds what it expects of every entry; when none is left,  *)
(* entries expected less than half a time are dropped.  Counts are exact    *)
(* fractions.  In every order the outcome is the same, no byte is counted   *)
(* twice or lost on the way, and the formulas the conformance check uses    *)
(* (forward and backward weights, rounded) agree with counting the          *)
(* segmentations one by one.                                                *)
EXTENDS Train, TLC

VARIABLES cfg, todo, acc, phase
vars == <<cfg, todo, acc, phase>>

Deep == IOEnv.MC_DEEP = "1"
a == 97
b == 98
Longer == << <<a, a>>, <<a, b>>, <<b, a>>, <<a, b, a>>, <<b, b, b>> >>
Picks == {s \in SUBSET (1..5) : Cardinality(s) \in 1..(IF Deep THEN 3 ELSE 2)}
\* The weights of a and b, and of the longer entries.
Profiles == << <<1, 1, <<1, 1, 1, 1, 1>> >>, <<2, 1, <<1, 3, 2, 1, 3>> >>, <<1, 3, <<5, 1, 1, 4, 2>> >> >>
SampleLists == << << <<<<a, b, a>>, 1>> >>,
                  << <<<<a>>, 1>>, <<<<b, b>>, 2>> >>,
                  << <<<<a, b, a, b>>, 1>>, <<<<b, a, a>>, 2>> >>,
                  << <<<<a, a, a>>, 3>>, <<<<b>>, 1>>, <<<<a, b>>, 1>> >>,
                  << <<<<b, b, b, b>>, 2>>, <<<<a, a, b, a>>, 1>> >>,
                  << <<<<a, b>>, 4>>, <<<<b, a, b, a>>, 1>>, <<<<b, b>>, 1>> >> >>

Vocab(pick, kept) ==
    LET ids == SetToSeq(pick)
    IN << [v |-> <<a>>, s |-> 0, k |-> kept # 2], [v |-> <<b>>, s |-> 0, k |-> kept = 1] >>
       \o [i \in 1..Len(ids) |-> [v |-> Longer[ids[i]], s |-> 0, k |-> kept = 1 /\ i = 1]]
Weights(pick, p) ==
    LET ids == SetToSeq(pick) IN <<Profiles[p][1], Profiles[p][2]>> \o [i \in 1..Len(ids) |-> Profiles[p][3][ids[i]]]

\* All ways to cut x into entries, as sequences of their positions.
RECURSIVE Cuts(_, _)
Cuts(v, x) ==
    IF x = <<>> THEN {<<>>}
    ELSE UNION {{<<t>> \o c : c \in Cuts(v, SubSeq(x, Len(v[t].v) + 1, Len(x)))} :
                t \in {u \in 1..Len(v) : Len(v[u].v) <= Len(x) /\ SubSeq(x, 1, Len(v[u].v)) = v[u].v}}
Product(w, c) == FoldLeft(LAMBDA n, t : n * w[t], 1, c)
Times(c, t) == Cardinality({i \in 1..Len(c) : c[i] = t})
Sum(f(_), S) == FoldSet(LAMBDA e, n : n + f(e), 0, S)
Total(v, w, x) == LET p(c) == Product(w, c) IN Sum(p, Cuts(v, x))
\* Weight of the cuts in which entry t occurs, once for each time.
Share(v, w, x, t) == LET p(c) == Product(w, c) * Times(c, t) IN Sum(p, Cuts(v, x))

Samples0 == SampleLists[cfg.samples]
\* All counts as fractions of one denominator.
Denominator(c) == FoldLeft(LAMBDA n, s : n * Total(c.vocab, c.w, s[1]), 1, SampleLists[c.samples])

Init == /\ \E pick \in Picks, p \in 1..3, kept \in 0..2, s \in 1..Len(SampleLists) :
             cfg = [vocab |-> Vocab(pick, kept), w |-> Weights(pick, p), samples |-> s]
        /\ todo = 1..Len(SampleLists[cfg.samples])
        /\ acc = [t \in 1..Len(cfg.vocab) |-> 0]
        /\ phase = "count"
D == Denominator(cfg)
Take == /\ phase = "count"
        /\ \E i \in todo :
             LET x == Samples0[i][1]
                 z == Total(cfg.vocab, cfg.w, x)
             IN /\ acc' = [t \in 1..Len(acc) |-> acc[t] + Samples0[i][2] * Share(cfg.vocab, cfg.w, x, t) * (D \div z)]
                /\ todo' = todo \ {i}
        /\ UNCHANGED <<cfg, phase>>
Finish == phase = "count" /\ todo = {} /\ phase' = "over" /\ UNCHANGED <<cfg, todo, acc>>
Next == Take \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

M == Model(cfg.vocab)
Survives(t) == cfg.vocab[t].k \/ 2 * acc[t] >= D

\* Every byte of the samples taken so far is accounted for, once.
Conserved == LET bytes(t) == acc[t] * Len(cfg.vocab[t].v)
                 taken(i) == Samples0[i][2] * Len(Samples0[i][1])
             IN Sum(bytes, 1..Len(acc)) = D * Sum(taken, (1..Len(Samples0)) \ todo)
\* What is counted does not depend on the order.
Confluent == phase = "over" =>
                \A t \in 1..Len(acc) :
                    LET of(i) == Samples0[i][2] * Share(cfg.vocab, cfg.w, Samples0[i][1], t) * (D \div Total(cfg.vocab, cfg.w, Samples0[i][1]))
                    IN acc[t] = Sum(of, 1..Len(Samples0))
\* The formulas of the conformance check.
Unit == 1000
Rounded(t) == (acc[t] \div D) * Unit + ((acc[t] % D) * Unit) \div D
Formula == phase = "over" =>
              LET e == ExpectedCounts(M, cfg.w, Samples0, Unit)
              IN \A t \in 1..Len(acc) : Abs(e[t] - Rounded(t)) <= Len(Samples0) + 1
Weighing == phase = "count" /\ todo = 1..Len(Samples0) =>
              \A i \in 1..Len(Samples0) :
                LET p == Posterior(M, cfg.w, Samples0[i][1])
                IN /\ p.z = Total(cfg.vocab, cfg.w, Samples0[i][1])
                   /\ \A t \in 1..Len(acc) : p.num[t] = Share(cfg.vocab, cfg.w, Samples0[i][1], t)
\* The verdict accepts the outcome, and nothing else: not one entry more or
\* less, nor a count off by a tenth.
F == [t \in 1..Len(acc) |-> IF Survives(t) THEN MaxOf(Rounded(t), Unit \div 2) ELSE -1]
Whole(f) == FoldSet(LAMBDA t, n : n + f[t], 0, {t \in 1..Len(f) : f[t] # -1})
Verdict(f) == EstimateVerdict(cfg.vocab, cfg.w, Samples0, f, Whole(f), Unit)
MayGo(t) == ~cfg.vocab[t].k /\ Segmentable([M EXCEPT !.idx[cfg.vocab[t].v[1]] = @ \ {t}], cfg.vocab[t].v)
Judged == phase = "over" =>
            /\ Verdict(F) # "bad"
            /\ \A t \in 1..Len(acc) :
                 IF Survives(t)
                 THEN /\ Verdict([F EXCEPT ![t] = @ + 100]) # "ok" /\ Verdict([F EXCEPT ![t] = @ - 100]) # "ok"
                      /\ MayGo(t) \/ Verdict([F EXCEPT ![t] = -1]) # "ok"
                 ELSE Verdict([F EXCEPT ![t] = Unit \div 2]) # "ok"
\* Where every letter is protected, nothing can fail.
Left == Model(SelectSeq(cfg.vocab, LAMBDA x : \E t \in 1..Len(acc) : cfg.vocab[t] = x /\ (x.k \/ 2 * acc[t] > D)))
Fails == \E i \in 1..Len(Samples0) : ~Segmentable(Left, Samples0[i][1])
Safe == phase = "over" => /\ Fails => ~(cfg.vocab[1].k /\ cfg.vocab[2].k)
                          /\ EstimateMayFail(cfg.vocab, cfg.w, Samples0, 100000) = Fails
Halts == <>(phase = "over")
Emit == phase = "over" =>
          PrintT(ToJson([cfg |-> cfg, samples |-> Samples0, num |-> acc, den |-> D, fails |-> Fails, go |-> {t \in 1..Len(acc) : MayGo(t)}]))
=============================================================================
