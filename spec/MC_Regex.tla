------------------------------- MODULE MC_Regex -----------------------------
(* Every small pattern with every small text: the matching order of Ends    *)
(* and FindAll against the language a pattern stands for, and what a union  *)
(* of patterns accepts.                                                     *)
EXTENDS Train, TLC

VARIABLES pats, deal

Deep == IOEnv.MC_DEEP = "1"
a == 97
b == 98
nl == 10
Texts == UNION {[1..n -> {a, b}] : n \in 0..(IF Deep THEN 4 ELSE 3)}
         \cup {<<nl>>, <<a, nl>>, <<nl, a>>, <<a, nl, b>>}

\* Patterns, small ones first.  Nullable ones are not repeated.
L0 == {Lit(a), Lit(b), NotChr(<<<<a, a>>>>), NotChr(<<<<nl, nl>>>>)}
RECURSIVE Nullable(_)
Nullable(x) == CASE x.k = "chr" -> FALSE
                 [] x.k = "cat" -> \A i \in 1..Len(x.xs) : Nullable(x.xs[i])
                 [] x.k = "alt" -> \E i \in 1..Len(x.xs) : Nullable(x.xs[i])
                 [] x.k = "rep" -> x.lo = 0
                 [] OTHER -> TRUE
Lazy(x, lo, hi) == [Rep(x, lo, hi) EXCEPT !.lazy = TRUE]
Of1(x) == IF Nullable(x) THEN {} ELSE {Plus(x), Opt(x), Rep(x, 0, -1), Rep(x, 2, 2), Lazy(x, 1, -1), Lazy(x, 0, 1), Rep(x, 1, 2)}
Of2(x, y) == {Cat(<<x, y>>), Alt(<<x, y>>)}
L1 == UNION {Of1(x) : x \in L0} \cup UNION {Of2(x, y) : x, y \in L0 \ {NotChr(<<<<nl, nl>>>>)}}
      \cup {Cat(<<[k |-> "bol"], x>>) : x \in L0} \cup {Cat(<<x, [k |-> "eol"]>>) : x \in L0}
Ab == {Lit(a), Lit(b)}
L2 == UNION {Of2(x, y) \cup Of2(y, x) : x \in L1, y \in Ab}
Reps2 == UNION {Of1(x) : x \in {y \in L1 : y.k \in {"cat", "alt"}}}
Big == UNION {Of2(x, y) : x, y \in {z \in L1 : z.k = "rep" \/ Len(z.xs) = 2}}
Patterns2 == L0 \cup L1 \cup L2 \cup (IF Deep THEN Reps2 \cup Big ELSE {})

Lists == {<<p>> : p \in Patterns2}
         \cup {<<p, q>> : p \in L1, q \in {Lit(a), Plus(Lit(b)), Alt(<<Lit(a), Cat(<<Lit(b), Lit(a)>>)>>)}}
         \cup {<<q, p>> : p \in L1, q \in {Lit(a), Plus(Lit(b)), Cat(<<[k |-> "bol"], Lit(b)>>)}}
AllLists == SetToSeq(Lists)

\* The lists are dealt out so that the workers share them.
Init == pats = <<>> /\ deal = 0
Next == \/ deal = 0 /\ deal' \in 1..64 /\ UNCHANGED pats
        \/ /\ deal # 0 /\ pats = <<>>
           /\ \E i \in {k \in 1..Len(AllLists) : k % 64 = deal - 1} : pats' = AllLists[i]
           /\ UNCHANGED deal
Spec == Init /\ [][Next]_<<pats, deal>>

any == IF Len(pats) = 1 THEN pats[1] ELSE Alt(pats)

\* What a pattern stands for: which parts i+1..j of s it describes.
RECURSIVE Describes(_, _, _, _), Times(_, _, _, _, _)
Describes(x, s, i, j) ==
    CASE x.k = "chr" -> j = i + 1 /\ j <= Len(s) /\ InRanges(s[j], x.rs) # x.neg
      [] x.k = "cat" -> IF x.xs = <<>> THEN i = j
                        ELSE \E k \in i..j : Describes(x.xs[1], s, i, k) /\ Describes(Cat(Tail(x.xs)), s, k, j)
      [] x.k = "alt" -> \E k \in 1..Len(x.xs) : Describes(x.xs[k], s, i, j)
      [] x.k = "rep" -> \E n \in x.lo..(IF x.hi = -1 THEN MaxOf(Len(s), x.lo) ELSE x.hi) : Times(x.x, n, s, i, j)
      [] x.k = "bol" -> i = j /\ i = 0
      [] x.k = "eol" -> i = j /\ i = Len(s)
Times(x, n, s, i, j) == IF n = 0 THEN i = j
                        ELSE \E k \in i..j : Describes(x, s, i, k) /\ Times(x, n - 1, s, k, j)

Chosen == pats # <<>>
EndsAgree == Chosen => \A s \in Texts : \A i \in 0..Len(s) : ToSet(Ends(any, s, i)) = {j \in i..Len(s) : Describes(any, s, i, j)}
FindsAgree == Chosen =>
    \A s \in Texts :
        LET f == FindAll(any, s)
        IN /\ \A k \in 1..Len(f) : /\ Describes(any, s, f[k][1], f[k][2])
                                   /\ f[k][2] = Ends(any, s, f[k][1])[1]
           /\ \A k \in 2..Len(f) : f[k][1] >= f[k - 1][2] /\ f[k][1] > f[k - 1][1]
           \* nothing is skipped: where no match covers a place and none could
           \* be found there, none begins
           /\ \A i \in 0..Len(s) : Ends(any, s, i) # <<>> =>
                 \/ \E k \in 1..Len(f) : f[k][1] <= i /\ i < MaxOf(f[k][2], f[k][1] + 1)
                 \/ /\ Ends(any, s, i)[1] = i
                    /\ \E k \in 1..Len(f) : f[k][2] = i
UnionAgrees == Chosen => \A s \in Texts : Accepts(any, s) <=> \E k \in 1..Len(pats) : Accepts(pats[k], s)

NonEmpty == SetToSeq(Texts \ {<<>>})
All == [i \in 1..Len(NonEmpty) |-> <<NonEmpty[i], 1>>]
Counts == Idioms(All, pats)
Emit == Chosen => PrintT(ToJson([pats |-> pats,
                       c |-> LET ts == SetToSeq(Texts) IN [i \in 1..Len(ts) |-> <<ts[i], \E k \in 1..Len(pats) : Accepts(pats[k], ts[i])>>],
                       idioms |-> LET vs == SetToSeq(DOMAIN Counts) IN [i \in 1..Len(vs) |-> <<vs[i], Counts[vs[i]]>>]]))
=============================================================================
