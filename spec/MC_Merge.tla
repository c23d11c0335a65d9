------------------------------- MODULE MC_Merge -----------------------------
(* Merging as a machine: rounds of encoding all samples (in any best way),  *)
(* counting adjacent pairs, and going through the pairs by descending count *)
(* (in any order among equals), appending what is permitted and new, until  *)
(* the round's or the command's quota is used up or a round appends nothing.*)
EXTENDS Train, TLC

VARIABLES cfg, vocab, pairs, quota, left, before, phase
vars == <<cfg, vocab, pairs, quota, left, before, phase>>

Deep == IOEnv.MC_DEEP = "1"
a == 97
b == 98
Base == << [v |-> <<a>>, s |-> -64, k |-> TRUE], [v |-> <<b>>, s |-> -64, k |-> FALSE] >>
Strings == UNION {{<<a>> \o s : s \in [1..n -> {a, b}]} : n \in 2..(IF Deep THEN 5 ELSE 4)}
Short == UNION {[1..n -> {a, b}] : n \in 2..3}
SampleLists == {<< <<s, 1>> >> : s \in Strings} \cup {<< <<s, 2>>, <<t, 1>> >> : s, t \in Short}
AnyChar == NotChr(<<<<10, 10>>>>)
Allows == <<AnyChar, Lit(b), Cat(<<[k |-> "bol"], Plus(Lit(a)), Lit(b), [k |-> "eol"]>>)>>
Opts == {[merges |-> n, step |-> st, mul |-> 75, maxlen |-> l, slack |-> 0, margin |-> 0] :
            n \in {1, 2, 3}, st \in {1, 2}, l \in {2, 8}}
        \cup {[merges |-> 0, step |-> 1, mul |-> 75, maxlen |-> 8, slack |-> 0, margin |-> 0]}

O == cfg.o @@ [allow |-> Allows[cfg.allow]]
M == Model(vocab)

Init == /\ cfg \in [samples : SampleLists, o : Opts, allow : 1..Len(Allows)]
        /\ vocab = Base /\ pairs = <<>> /\ quota = 0 /\ before = 0
        /\ left = cfg.o.merges
        /\ phase = "start"
\* One best segmentation of each sample, any of them.
Encodings == LET best(i) == NearBest(M, cfg.samples[i][1], 0)
             IN {ch \in [1..Len(cfg.samples) -> UNION {best(i) : i \in 1..Len(cfg.samples)}] :
                   \A i \in 1..Len(cfg.samples) : ch[i] \in best(i)}
CountsOf(ch) == FoldLeft(LAMBDA f, i : FoldLeft(LAMBDA g, k : Add(g, <<ch[i][k], ch[i][k + 1]>>, cfg.samples[i][2]), f,
                                                [k \in 1..(Len(ch[i]) - 1) |-> k]),
                         <<>>, [i \in 1..Len(cfg.samples) |-> i])
Start == /\ phase = "start"
         /\ IF left = 0 THEN phase' = "over" /\ UNCHANGED <<pairs, quota>>
            ELSE /\ \E ch \in Encodings : pairs' = CountsOf(ch)
                 /\ quota' = MinOf(cfg.o.step, left)
                 /\ phase' = "round"
         /\ before' = Len(vocab)
         /\ UNCHANGED <<cfg, vocab, left>>
Without(fun, k) == [j \in DOMAIN fun \ {k} |-> fun[j]]
Consider == /\ phase = "round" /\ quota > 0 /\ DOMAIN pairs # {}
            /\ \E p \in {q \in DOMAIN pairs : \A r \in DOMAIN pairs : pairs[q] >= pairs[r]} :
                 LET v == Joined(M, p)
                     s == ((vocab[p[1] + 1].s + vocab[p[2] + 1].s) * 75) \div 100
                 IN /\ pairs' = Without(pairs, p)
                    /\ IF Permitted(O, v) /\ BaseId([m |-> M], v) = <<>>
                       THEN /\ vocab' = Append(vocab, [v |-> v, s |-> s, k |-> FALSE])
                            /\ quota' = quota - 1 /\ left' = left - 1
                       ELSE UNCHANGED <<vocab, quota, left>>
            /\ UNCHANGED <<cfg, before, phase>>
EndRound == /\ phase = "round" /\ (quota = 0 \/ DOMAIN pairs = {})
            \* nothing appended: over
            /\ phase' = IF Len(vocab) = before THEN "over" ELSE "start"
            /\ pairs' = <<>> /\ quota' = 0
            /\ UNCHANGED <<cfg, vocab, left, before>>
Next == Start \/ Consider \/ EndRound
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Over == phase = "over"
Bounds == /\ IsPrefix(Base, vocab)
          /\ Len(vocab) - Len(Base) + left = cfg.o.merges
          /\ \A i, j \in 1..Len(vocab) : vocab[i].v = vocab[j].v => i = j
          /\ \A i \in (Len(Base) + 1)..Len(vocab) :
                /\ Permitted(O, vocab[i].v) /\ ~vocab[i].k
                /\ \E j, k \in 1..(i - 1) : vocab[i].v = vocab[j].v \o vocab[k].v
\* What can be encoded stays encodable.
Encodable == \A i \in 1..Len(cfg.samples) : Segmentable(M, cfg.samples[i][1])
Judged == Over => MergeVerdict(Base, vocab, cfg.samples, O) = "ok"
Halts == <>Over
Emit == Over => PrintT(ToJson([cfg |-> cfg,
                               out |-> [i \in 1..(Len(vocab) - Len(Base)) |-> <<vocab[Len(Base) + i].v, vocab[Len(Base) + i].s>>]]))
=============================================================================
