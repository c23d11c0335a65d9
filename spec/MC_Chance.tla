----------------------------- MODULE MC_Chance ------------------------------
(* The draws one by one: for each occurrence in turn, taken or not.  With   *)
(* two equally likely outcomes every path weighs the same, so the chances   *)
(* the specification states can be counted.  MC_PART "insert": candidates   *)
(* of a small sample; "drop": places of a small text.                       *)
EXTENDS Chance, TLC

VARIABLES i, at, taken
vars == <<i, at, taken>>

Insert == IOEnv.MC_PART = "insert"
Deep == IOEnv.MC_DEEP = "1"
a == 97
b == 98
Opts(l) == [size |-> 400, maxlen |-> 2, allow |-> <<Cat(<<Rep(Chr(<<<<a, b>>>>), 2, 2)>>)>>, split |-> <<>>, added |-> l, suggested |-> <<>>]
Samples_ == << <<a, b>>, <<a, b, a, b>>, <<a, b, b, a, b>>, <<a, a, a, a>>, <<b, a, a, b>> >>
Lists == << <<>>, <<<<a, b>>>>, <<<<a, a>>>> >>
Cases == [x : 1..Len(Samples_), l : 1..Len(Lists)]
V == <<[v |-> <<a>>, s |-> 0, k |-> TRUE], [v |-> <<b>>, s |-> 0, k |-> TRUE], [v |-> <<a, b>>, s |-> 0, k |-> FALSE],
       [v |-> <<b, a>>, s |-> 0, k |-> FALSE], [v |-> <<a, b, a>>, s |-> 0, k |-> FALSE]>>
W == <<1, 2, 3, 1, 2>>
Txts == << <<a, b>>, <<a, b, a>>, <<b, a, b>>, <<a, b, a, b>> >> \o (IF Deep THEN << <<a, b, a, b, a>> >> ELSE <<>>)
M == Model(V)

Of(k) == IF Insert THEN Draws(Samples_[k.x], Opts(Lists[k.l])) ELSE SetToSeq(Places(M, Txts[k.x]))
All == IF Insert THEN Cases ELSE [x : 1..Len(Txts), l : {1}]
Init == i \in All /\ at = 0 /\ taken = {}
Next == /\ at < Len(Of(i)) /\ at' = at + 1 /\ UNCHANGED i
        /\ \E yes \in BOOLEAN : taken' = IF yes THEN taken \cup {at + 1} ELSE taken
Spec == Init /\ [][Next]_vars

\* All paths, counted.
Paths(k) == SUBSET (1..Len(Of(k)))
CountsOK ==
    at = 0 =>
    LET d == Of(i)
        n == Len(d)
    IN IF Insert
       THEN \A v \in ToSet(d) :
              LET m == Cardinality({k \in 1..n : d[k] = v})
                  with == Cardinality({p \in Paths(i) : \E k \in p : d[k] = v})
              IN with * Pow(2, m) = Cardinality(Paths(i)) * SomeOf(m, 1, 2)
       ELSE LET unit == 840
                mean == DropoutMean(M, W, Txts[i.x], 1, 2, unit)
                post(p) == PosteriorBut(M, W, Txts[i.x], {d[k] : k \in p})
                whole == Posterior(M, W, Txts[i.x])
            IN /\ post({}) = whole
               /\ \A t \in 1..Len(V) :
                    LET s == FoldSet(LAMBDA p, x : x + (unit * post(p).num[t]) \div post(p).z, 0, Paths(i))
                    IN Abs(s - mean[t] * Cardinality(Paths(i))) <= 2 * Cardinality(Paths(i))
               \* bytes are never lost
               /\ LET total == SumSeq([t \in 1..Len(V) |-> mean[t] * Len(V[t].v)])
                  IN Abs(total - unit * Len(Txts[i.x])) <= 5 * Len(Txts[i.x])
\* The tolerance admits the mean and no other rate.
JudgeOK ==
    /\ \A n \in {100, 1000}, q \in 1..3 : Within((n * q) \div 4, n, q, 4)
    /\ \A q \in 1..3, r \in 0..4 : q # r => ~Within(250 * r, 1000, q, 4)
    /\ \A q \in {1, 5, 37, 995, 999} : Within((40000 * q) \div 1000, 40000, q, 1000)
    /\ ~Within(0, 40000, 5, 1000) /\ ~Within(39600, 40000, 995, 1000) /\ ~Within(1480, 40000, 50, 1000)
    /\ Within(0, 500, 0, 4) /\ ~Within(1, 500, 0, 4) /\ Within(500, 500, 4, 4) /\ ~Within(499, 500, 4, 4)
=============================================================================
