------------------------------ MODULE Segment -------------------------------
(* A vocabulary is a sequence of tokens [v |-> bytes, s |-> score, k |->    *)
(* keep]; the id of a token is its index minus one.  When a byte string     *)
(* occurs twice the newest entry shadows the older ones.  The empty string  *)
(* never matches anything.                                                  *)
EXTENDS Bytes

\* Positions of the entries that text can map to, by first byte.
Index(vocab) ==
    LET add(idx, i) ==
            LET v == vocab[i].v
            IN IF v = <<>> THEN idx
               ELSE [idx EXCEPT ![v[1]] = {j \in @ : vocab[j].v # v} \cup {i}]
    IN FoldLeftDomain(add, [b \in 0..255 |-> {}], vocab)

MaxLen(vocab) == FoldLeft(LAMBDA a, t : MaxOf(a, Len(t.v)), 1, vocab)

\* A model is a vocabulary with its index.
Model(vocab) == [vocab |-> vocab, idx |-> Index(vocab), lmax |-> MaxLen(vocab)]

\* Entries that match after the first i bytes of text.
Cands(m, text, i) == {t \in m.idx[text[i + 1]] : MatchAt(text, i, m.vocab[t].v)}

Down(n) == [k \in 1..n |-> n - k]          \* n-1, ..., 0

\* Best total score of a segmentation of text, as <<score>>, or <<>> if
\* there is none.  Allowed(i, t) restricts which occurrences may be used.
BestWhere(m, text, Allowed(_, _)) ==
    LET step(acc, i) ==
            \* acc[j] is the best score of the suffix after i + j bytes
            LET opts == {m.vocab[t].s + acc[Len(m.vocab[t].v)][1] :
                            t \in {u \in Cands(m, text, i) :
                                      /\ acc[Len(m.vocab[u].v)] # <<>>
                                      /\ Allowed(i, u)}}
                b == IF opts = {} THEN <<>> ELSE <<Max(opts)>>
            IN <<b>> \o (IF Len(acc) >= m.lmax THEN SubSeq(acc, 1, m.lmax - 1) ELSE acc)
        end == FoldLeft(step, <<<<0>>>>, Down(Len(text)))
    IN end[1]

Best(m, text) == BestWhere(m, text, LAMBDA i, t : TRUE)

Segmentable(m, text) == Best(m, text) # <<>>

\* Number of segmentations that reach the best score (capped), to recognise
\* inputs on which ties leave the implementation a choice.
BestCount(m, text) ==
    LET step(acc, i) ==
            LET c == {t \in Cands(m, text, i) : acc[Len(m.vocab[t].v)].n > 0}
                sc(t) == m.vocab[t].s + acc[Len(m.vocab[t].v)].b
                b == IF c = {} THEN 0 ELSE Max({sc(t) : t \in c})
                n == SumSeq([k \in 1..Cardinality(c) |->
                        LET t == SetToSeq(c)[k] IN IF sc(t) = b THEN acc[Len(m.vocab[t].v)].n ELSE 0])
            IN <<[b |-> b, n |-> MinOf(n, 1000)]>>
               \o (IF Len(acc) >= m.lmax THEN SubSeq(acc, 1, m.lmax - 1) ELSE acc)
    IN FoldLeft(step, <<[b |-> 0, n |-> 1]>>, Down(Len(text)))[1].n

IdsInRange(m, ids) == \A k \in 1..Len(ids) : ids[k] \in 0..(Len(m.vocab) - 1)

Spell(m, ids) == Flat([k \in 1..Len(ids) |-> m.vocab[ids[k] + 1].v])

\* Spell(m, ids) = text, without building the concatenation.
Spells(m, ids, text) ==
    LET step(pos, id) == IF pos >= 0 /\ MatchAt(text, pos, m.vocab[id + 1].v)
                         THEN pos + Len(m.vocab[id + 1].v) ELSE -1
    IN FoldLeft(step, 0, ids) = Len(text)

Score(m, ids) == SumSeq([k \in 1..Len(ids) |-> m.vocab[ids[k] + 1].s])

\* Only entries that are not shadowed may appear.
Live(m, ids) == \A k \in 1..Len(ids) : LET v == m.vocab[ids[k] + 1].v
                                       IN v # <<>> /\ (ids[k] + 1) \in m.idx[v[1]]

IsBest(m, text, ids) ==
    /\ IdsInRange(m, ids)
    /\ Spells(m, ids, text)
    /\ Live(m, ids)
    /\ <<Score(m, ids)>> = Best(m, text)

\* The declarative counterpart: every segmentation, by brute force.
RECURSIVE SegsFrom(_, _, _)
SegsFrom(m, text, i) ==
    IF i = Len(text) THEN {<<>>}
    ELSE UNION {{<<t - 1>> \o r : r \in SegsFrom(m, text, i + Len(m.vocab[t].v))} : t \in Cands(m, text, i)}

Segs(m, text) == SegsFrom(m, text, 0)

-----------------------------------------------------------------------------
(* Segmentation by the exact tie-break of a left-to-right relaxation that   *)
(* replaces only on strict improvement: among equals the token that starts  *)
(* earliest.  Used where a count over encodings must be predicted.          *)
FirstBest(m, text) ==
    LET n == Len(text)
        step(dp, i) ==
            \* dp[j+1] describes position j: reachable, score, start, token
            IF ~dp[i + 1].ok THEN dp
            ELSE LET c == Cands(m, text, i)
                     ends == {i + Len(m.vocab[t].v) : t \in c}
                     tokTo(j) == CHOOSE t \in c : i + Len(m.vocab[t].v) = j
                 IN [k \in 1..(n + 1) |->
                        IF (k - 1) \in ends
                        THEN LET t == tokTo(k - 1)
                                 sc == dp[i + 1].s + m.vocab[t].s
                             IN IF ~dp[k].ok \/ sc > dp[k].s
                                THEN [ok |-> TRUE, s |-> sc, from |-> i, t |-> t] ELSE dp[k]
                        ELSE dp[k]]
        dp0 == [k \in 1..(n + 1) |-> [ok |-> k = 1, s |-> 0, from |-> 0, t |-> 0]]
        dpn == FoldLeft(step, dp0, [k \in 1..n |-> k - 1])
        back == FoldLeft(LAMBDA st, k : IF st.pos = 0 THEN st
                              ELSE [pos |-> dpn[st.pos + 1].from,
                                    ids |-> <<dpn[st.pos + 1].t - 1>> \o st.ids],
                         [pos |-> n, ids |-> <<>>], [k \in 1..n |-> k])
    IN IF dpn[n + 1].ok THEN [ok |-> TRUE, ids |-> back.ids] ELSE [ok |-> FALSE, ids |-> <<>>]

-----------------------------------------------------------------------------
(* Posterior over segmentations, exactly.  w[t] is the integer weight (the  *)
(* exponential of the score) of entry t; a segmentation weighs the product  *)
(* of its tokens' weights.                                                  *)

\* Beta[i+1]: total weight of the segmentations of the suffix after i bytes.
Beta(m, w, text) ==
    LET step(acc, i) == <<SumSeq([k \in 1..Cardinality(Cands(m, text, i)) |->
                              LET t == SetToSeq(Cands(m, text, i))[k]
                              IN w[t] * acc[Len(m.vocab[t].v)]])>> \o acc
    IN FoldLeft(step, <<1>>, Down(Len(text)))

\* Alpha[i+1]: total weight of the segmentations of the first i bytes.
Alpha(m, w, text) ==
    LET n == Len(text)
        step(acc, i) ==
            LET c == Cands(m, text, i)
                ends == {i + Len(m.vocab[t].v) : t \in c}
            IN [k \in 1..(n + 1) |->
                   IF (k - 1) \in ends
                   THEN LET t == CHOOSE u \in c : i + Len(m.vocab[u].v) = k - 1
                        IN acc[k] + acc[i + 1] * w[t]
                   ELSE acc[k]]
    IN FoldLeft(step, [k \in 1..(n + 1) |-> IF k = 1 THEN 1 ELSE 0], [k \in 1..n |-> k - 1])

\* Z, and for each entry the numerator of its expected count (over Z).
Posterior(m, w, text) ==
    LET al == Alpha(m, w, text)
        be == Beta(m, w, text)
        n == Len(text)
        add(acc, i) ==
            LET c == Cands(m, text, i)
            IN [t \in 1..Len(m.vocab) |->
                   IF t \in c THEN acc[t] + al[i + 1] * w[t] * be[i + Len(m.vocab[t].v) + 1] ELSE acc[t]]
    IN [z |-> be[1],
        num |-> FoldLeft(add, [t \in 1..Len(m.vocab) |-> 0], [k \in 1..n |-> k - 1])]

\* The same, by brute force over all segmentations.
PosteriorBrute(m, w, text) ==
    LET segs == Segs(m, text)
        weight(s) == FoldLeft(LAMBDA a, id : a * w[id + 1], 1, s)
        occ(s, t) == Cardinality({k \in 1..Len(s) : s[k] = t - 1})
        sum(f(_)) == FoldSet(LAMBDA s, a : a + f(s), 0, segs)
    IN [z |-> sum(weight),
        num |-> [t \in 1..Len(m.vocab) |-> sum(LAMBDA s : occ(s, t) * weight(s))]]
=============================================================================
