------------------------------- MODULE MC_Prune -----------------------------
(* Pruning as a machine: rounds in which every entry stays, is dropped, or  *)
(* is a candidate, of which the costliest are kept (any of them where their *)
(* losses are equal), until the target is met or a round removes nothing.   *)
EXTENDS Train, TLC

VARIABLES cfg, vocab, phase
vars == <<cfg, vocab, phase>>

Deep == IOEnv.MC_DEEP = "1"
a == 97
b == 98
\* Longer entries, and their scores: always better than their parts, or in
\* part worse than them; no two segmentations score the same.
Longer == << <<a, a>>, <<a, b>>, <<b, a>>, <<a, a, b>>, <<a, b, a, b>> >>
Profiles == << <<-33, -35, -41, -50, -57>>, <<-233, -35, -141, -350, -47>> >>
Picks == {s \in SUBSET (1..5) : Cardinality(s) \in 1..(IF Deep THEN 4 ELSE 3)}
Vocab(pick, prof, single, multi) ==
    LET of(i) == [v |-> Longer[i], s |-> Profiles[prof][i], k |-> i \in multi]
        ids == SetToSeq(pick)
    IN << [v |-> <<a>>, s |-> -100, k |-> single[1]], [v |-> <<b>>, s |-> -113, k |-> single[2]] >>
       \o [i \in 1..Len(ids) |-> of(ids[i])]
Kept0(pick) == {{}} \cup {{i} : i \in pick}
SampleLists == << << <<<<a, b, a>>, 3>>, <<<<a, a, b, b>>, 2>> >>,
                  << <<<<a, b, a, b, a>>, 1>>, <<<<b, b>>, 1>>, <<<<a, a>>, 5>> >>,
                  << <<<<a, a, a, b>>, 4>>, <<<<a, b>>, 1>>, <<<<b, a, a>>, 2>> >>,
                  << <<<<b>>, 7>> >> >>

O == [target |-> cfg.target, num |-> cfg.num, den |-> 4]
Samples0 == SampleLists[cfg.samples]

Init == /\ \E pick \in Picks, prof \in 1..2, single \in {<<TRUE, TRUE>>, <<FALSE, TRUE>>} :
             \E multi \in Kept0(pick), t \in 0..5, num \in {2, 3} \cup (IF Deep THEN {0, 4} ELSE {}) :
               \E s \in 1..(IF Deep THEN 4 ELSE 2) :
                 cfg = [in |-> Vocab(pick, prof, single, multi), target |-> t, num |-> num, samples |-> s]
        /\ vocab = cfg.in /\ phase = "start"
Over == phase \in {"over", "tie", "fails"}
Round == /\ phase = "start"
         /\ IF Len(vocab) <= cfg.target THEN phase' = "over" /\ UNCHANGED vocab
            ELSE LET r == PruneRound(vocab, Samples0, O)
                 IN IF r.tie THEN phase' = "tie" /\ UNCHANGED vocab
                    ELSE IF r.fails THEN phase' = "fails" /\ UNCHANGED vocab
                    ELSE \E x \in Kept(r) :
                           LET ids == SelectSeq([i \in 1..Len(vocab) |-> i], LAMBDA i : i \in r.stay \/ i \in x)
                           IN /\ vocab' = [i \in 1..Len(ids) |-> vocab[ids[i]]]
                              /\ phase' = IF Len(ids) = Len(vocab) THEN "over" ELSE "start"
         /\ UNCHANGED cfg
Next == Round
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* In every state: nothing protected is gone, and what could be segmented
\* still can.
Bounds == PruneBounds(cfg.in, vocab, cfg.target)
Encodable == \A i \in 1..Len(Samples0) :
                Segmentable(Model(cfg.in), Samples0[i][1]) => Segmentable(Model(vocab), Samples0[i][1])
\* Every entry that went can be spelled with what is left.
Spelled == \A i \in 1..Len(cfg.in) : Segmentable(Model(vocab), cfg.in[i].v)
Sorted(v) == SortSeq(v, LAMBDA x, y : x.s > y.s)
Judged == /\ phase = "over" => PruneVerdict(cfg.in, IF Len(cfg.in) > cfg.target THEN Sorted(vocab) ELSE vocab, Samples0, O) = "ok"
          \* it stops early only where nothing more can go
          /\ phase = "over" /\ Len(vocab) > cfg.target => Irreducible(vocab) \/ cfg.num = 4
Halts == <>Over
Emit == Over => PrintT(ToJson([cfg |-> cfg, samples |-> Samples0, end |-> phase,
                               out |-> IF Len(cfg.in) > cfg.target THEN Sorted(vocab) ELSE vocab]))
=============================================================================
