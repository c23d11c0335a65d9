----------------------------- MODULE MC_Segment -----------------------------
(* Every small vocabulary, built token by token, with every small text:     *)
(* the efficient definitions that judge recorded traces (Best, BestCount,   *)
(* FirstBest, Histogram, Posterior, PieceOK ...) agree with the declarative *)
(* ones over the explicit set of segmentations.  What the library must      *)
(* answer is printed for replay.  MC_PART selects the aspect, MC_DEEP = "1" *)
(* the larger bounds.                                                       *)
EXTENDS NBest, Tokenizer, TLC

VARIABLE vocab

a == 97
b == 98
Part == IOEnv.MC_PART
Deep == IOEnv.MC_DEEP = "1"

Few == {<<a>>, <<b>>, <<a, b>>, <<b, a>>, <<a, a>>, <<a, b, a>>}
Some == Few \cup {<<b, b>>, <<b, a, b>>, <<a, b, b>>}
All == UNION {[1..n -> {a, b}] : n \in 1..3}

Strings == CASE Part = "drop" -> IF Deep THEN Some ELSE Few
             [] Part = "prefix" -> All \cup {<<>>}
             [] OTHER -> IF Deep THEN All ELSE Some
Scores == CASE Part = "post" -> {1, 2, 3}       \* weights
            [] Part = "prefix" -> {-1}
            [] Part = "drop" -> {-1, -3}
            [] OTHER -> IF Deep THEN {-1, -2, -3} ELSE {-1, -3}
MaxTokens == 3
Texts == UNION {[1..n -> {a, b}] : n \in 0..(IF Part = "prefix" /\ ~Deep THEN 3 ELSE 4)}

Init == vocab = <<>>
Next == /\ Len(vocab) < MaxTokens
        /\ \E v \in Strings, s \in Scores : vocab' = Append(vocab, [v |-> v, s |-> s, k |-> FALSE])
Spec == Init /\ [][Next]_vocab

m == Model(vocab)
w == [i \in 1..Len(vocab) |-> vocab[i].s]

\* The declarative side.
BestSegs(x) == LET all == Segs(m, x) IN {s \in all : \A r \in all : Score(m, s) >= Score(m, r)}

MultiOccurrences(x) == {<<i, t>> : i \in 0..(Len(x) - 1), t \in 1..Len(vocab)} \cap
                       {<<i, t>> : i \in 0..(Len(x) - 1), t \in {u \in 1..Len(vocab) : Len(vocab[u].v) > 1}}
Occurring(x) == {o \in MultiOccurrences(x) : o[2] \in Cands(m, x, o[1])}
Uses(s) == Starts(m, s)
SegsUsing(x, alive) == {s \in Segs(m, x) : \A o \in Uses(s) : Len(vocab[o[2]].v) = 1 \/ o \in alive}
BestUsing(x, alive) == LET all == SegsUsing(x, alive) IN {s \in all : \A r \in all : Score(m, s) >= Score(m, r)}

BestAgrees ==
    \A x \in Texts :
        LET all == Segs(m, x)
            top == BestSegs(x)
            f == FirstBest(m, x)
        IN /\ Best(m, x) = IF all = {} THEN <<>> ELSE <<Max({Score(m, s) : s \in all})>>
           /\ BestCount(m, x) = Cardinality(top)
           /\ f.ok <=> all # {}
           /\ f.ok => f.ids \in top
           /\ \A s \in all : IsBest(m, x, s) <=> s \in top
           /\ \A s \in all : Spells(m, s, x) /\ Spell(m, s) = x /\ Live(m, s)
DropAgrees ==
    \A x \in Texts :
        LET outs == UNION {BestUsing(x, alive) : alive \in SUBSET Occurring(x)}
        IN /\ \A s \in Segs(m, x) : PieceOK(m, x, "mid", s) <=> s \in outs
           /\ \A s \in Segs(m, x) : PieceOK(m, x, "1", s) <=> s \in BestUsing(x, {})
           /\ \A s \in Segs(m, x) : PieceOK(m, x, "0", s) <=> s \in BestUsing(x, Occurring(x))
           /\ PieceMayFail(m, x, "mid") <=> \E alive \in SUBSET Occurring(x) : SegsUsing(x, alive) = {}
           /\ PieceMustFail(m, x, "mid") <=> \A alive \in SUBSET Occurring(x) : SegsUsing(x, alive) = {}
Tops(x) == SetToSortSeq({<<Score(m, s), s>> : s \in Segs(m, x)}, LAMBDA p, q : p[1] > q[1])
NBestAgrees ==
    \A x \in Texts :
        LET all == Segs(m, x)
            h == Histogram(m, x)
        IN /\ DOMAIN h = {Score(m, s) : s \in all}
           /\ \A v \in DOMAIN h : h[v] = Cardinality({s \in all : Score(m, s) = v})
PostAgrees ==
    \A x \in Texts :
        LET p == Posterior(m, w, x)
            q == PosteriorBrute(m, w, x)
            al == Alpha(m, w, x)
            be == Beta(m, w, x)
        IN /\ p = q
           /\ al[Len(x) + 1] = be[1]
           \* what starts before a byte and what ends behind it
           /\ \A i \in 1..Len(x) : al[i] * be[i] <= p.z
PrefixAgrees ==
    \A x \in Texts :
        LET p == PrefixesOf(m, x)
            live == {i \in 1..Len(vocab) : ~\E j \in (i + 1)..Len(vocab) : vocab[j].v = vocab[i].v}
        IN /\ {<<p[k][1], p[k][2]>> : k \in 1..Len(p)} =
              {<<i - 1, Len(vocab[i].v)>> : i \in {j \in live : vocab[j].v # <<>> /\ IsPrefix(vocab[j].v, x)}}
           /\ \A k \in 2..Len(p) : p[k - 1][2] < p[k][2]

Agrees == CASE Part = "best" -> BestAgrees
            [] Part = "drop" -> DropAgrees
            [] Part = "nbest" -> NBestAgrees
            [] Part = "post" -> PostAgrees
            [] Part = "prefix" -> PrefixAgrees

Case(x) ==
    CASE Part = "best" -> [x |-> x, best |-> BestSegs(x)]
      [] Part = "drop" -> [x |-> x, mid |-> {s \in Segs(m, x) : PieceOK(m, x, "mid", s)},
                           one |-> BestUsing(x, {}), zero |-> BestSegs(x), mayfail |-> PieceMayFail(m, x, "mid")]
      [] Part = "nbest" -> [x |-> x, tops |-> Tops(x)]
      [] Part = "post" -> LET p == Posterior(m, w, x) IN [x |-> x, z |-> p.z, num |-> p.num]
      [] Part = "prefix" -> [x |-> x, found |-> PrefixesOf(m, x)]
Emit == PrintT(ToJson([v |-> [i \in 1..Len(vocab) |-> <<vocab[i].v, vocab[i].s>>],
                       c |-> {Case(x) : x \in Texts}]))
=============================================================================
