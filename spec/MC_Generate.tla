----------------------------- MODULE MC_Generate ----------------------------
(* Making the first vocabulary: all bytes; then the added and the suggested *)
(* tokens in turn, each once and not as single bytes; then one of the most  *)
(* frequent other candidates after the other, until it is full.             *)
EXTENDS Train, TLC

VARIABLES cfg, chosen, next, pool, phase
vars == <<cfg, chosen, next, pool, phase>>

Deep == IOEnv.MC_DEEP = "1"
a == 97
b == 98
Ab == Chr(<<<<a, b>>>>)
SampleLists == << << <<<<a, b, a>>, 1>> >>, << <<<<a, a, b>>, 2>>, <<<<a, b>>, 1>> >>, << <<<<b, 195, 169, b>>, 3>>, <<<<b, b>>, 4>> >>, <<>> >>
Allows == << <<>>, <<Cat(<<[k |-> "bol"], Plus(Lit(a)), Plus(Lit(b)), [k |-> "eol"]>>)>>, <<Lit(b)>> >>
Splits == << <<>>, <<Cat(<<Opt(Lit(a)), Lit(b)>>)>>, <<Rep(Ab, 2, 2)>> >>
Lists == { [added |-> <<>>, suggested |-> <<>>],
           [added |-> <<<<a, b>>, <<a>>>>, suggested |-> <<<<122, 122>>, <<a, b>>>>],
           [added |-> <<<<122, 122>>>>, suggested |-> <<<<b, b>>, <<b, b>>, <<a, b, a>>>>] }
Init == /\ \E s \in 1..Len(SampleLists), w \in 1..Len(Allows), p \in 1..Len(Splits), l \in Lists, n \in {0, 256, 257, 258, 260} \cup (IF Deep THEN {259, 300} ELSE {}) :
             \E m \in (IF Deep THEN {1, 2, 3, 24} ELSE {2, 24}) :
               cfg = [samples |-> SampleLists[s], size |-> n, maxlen |-> m, allow |-> Allows[w], split |-> Splits[p],
                      added |-> l.added, suggested |-> l.suggested]
        /\ chosen = <<>> /\ next = 1 /\ pool = <<>> /\ phase = "prefer"
Full == 256 + Len(chosen) >= cfg.size
Have(v) == Len(v) = 1 \/ \E i \in 1..Len(chosen) : chosen[i].v = v
Prefer == /\ phase = "prefer" /\ next <= Len(Listed(cfg))
          /\ LET v == Listed(cfg)[next]
             IN chosen' = IF Full \/ Have(v) THEN chosen
                          ELSE Append(chosen, [v |-> v, k |-> next <= Len(cfg.added)])
          /\ next' = next + 1
          /\ UNCHANGED <<cfg, pool, phase>>
Turn == /\ phase = "prefer" /\ next > Len(Listed(cfg))
        /\ phase' = "pick"
        /\ LET f == Frequencies(cfg.samples, <<>>, cfg) IN pool' = [v \in {u \in DOMAIN f : ~Have(u)} |-> f[v]]
        /\ UNCHANGED <<cfg, chosen, next>>
Pick == /\ phase = "pick"
        /\ IF Full \/ DOMAIN pool = {} THEN phase' = "over" /\ UNCHANGED <<chosen, pool>>
           ELSE \E v \in {u \in DOMAIN pool : \A w \in DOMAIN pool : pool[u] >= pool[w]} :
                  /\ chosen' = Append(chosen, [v |-> v, k |-> FALSE])
                  /\ pool' = [u \in DOMAIN pool \ {v} |-> pool[u]]
                  /\ UNCHANGED phase
        /\ UNCHANGED <<cfg, next>>
Next == Prefer \/ Turn \/ Pick
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Over == phase = "over"
Limit == 256 + Len(chosen) <= MaxOf(256, cfg.size)
OnceEach == \A i, j \in 1..Len(chosen) : chosen[i].v = chosen[j].v => i = j
\* Whatever is asked for first is there first.
FirstAsked == Len(Preferred(cfg)) <= Len(chosen) \/ phase = "prefer"
AddedKept == Over => \A i \in 1..Len(chosen) : chosen[i].k => chosen[i].v \in ToSet(cfg.added)
\* What is picked comes from the samples or was asked for, is short enough,
\* and (unless asked for) permitted.
FromSamples == \A i \in 1..Len(chosen) :
    LET v == chosen[i].v
    IN v \in ToSet(Listed(cfg)) \/ /\ Len(v) <= cfg.maxlen
                                   /\ \E s \in 1..Len(cfg.samples) : Occurs(cfg.samples[s][1], v)
                                   /\ cfg.allow # <<>> => IsMatch(cfg.allow[1], CodePoints(v))

\* The finished vocabulary, weighed: entries by falling weight.
TopOf(f) == IF DOMAIN f = {} THEN 1 ELSE Max({f[v] : v \in DOMAIN f})
Judged == Over =>
    LET f == Frequencies(cfg.samples, <<>>, cfg)
        top == TopOf(f)
        weigh(t, k) == [v |-> t, k |-> k, s |-> IF Len(t) = 1 THEN top ELSE f[t] * Len(t)]
        out == SortSeq([i \in 1..256 |-> weigh(<<i - 1>>, TRUE)] \o [i \in 1..Len(chosen) |-> weigh(chosen[i].v, chosen[i].k)],
                       LAMBDA x, y : x.s > y.s)
    IN /\ GeneratedOK(out, cfg.samples, cfg, f)
       /\ GeneratedScoresOK(out, [i \in 1..Len(out) |-> <<out[i].s, top>>],
                            <<top, SumSeq([i \in 1..Len(out) |-> out[i].s])>>, cfg, f)
Halts == <>Over
\* The multi-byte entries and their weights relative to a byte's.
Emit == Over =>
    LET f == Frequencies(cfg.samples, <<>>, cfg)
    IN PrintT(ToJson([cfg |-> cfg, top |-> TopOf(f),
                      out |-> {<<chosen[i].v, chosen[i].k, f[chosen[i].v] * Len(chosen[i].v)>> : i \in 1..Len(chosen)}]))
=============================================================================
