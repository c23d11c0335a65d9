----------------------------- MODULE MC_Special -----------------------------
(* Every small list of special tokens, registered one by one, with every    *)
(* small text over two letters.  MC_PART "plain": letters a, b, no          *)
(* normalisation; "crlf": the letters are CR and LF, and the step folds     *)
(* them, which must stop at the special tokens.                             *)
EXTENDS Tokenizer, TLC

VARIABLE sp

Crs == IOEnv.MC_PART = "crlf"
Deep == IOEnv.MC_DEEP = "1"
a == IF Crs THEN 13 ELSE 97
b == IF Crs THEN 10 ELSE 98
Strings == UNION {[1..n -> {a, b}] : n \in 0..(IF Deep THEN 3 ELSE 2)} \cup {<<a, b, a>>, <<b, a, a>>}
Texts == UNION {[1..n -> {a, b}] : n \in 0..(IF Crs /\ ~Deep THEN 4 ELSE 5)}
Vocab == <<[v |-> <<a>>, s |-> -1, k |-> FALSE], [v |-> <<b>>, s |-> -1, k |-> FALSE],
           [v |-> <<a, b>>, s |-> -1, k |-> FALSE]>>

Init == sp = <<>>
Next == Len(sp) < 3 /\ \E s \in Strings : sp' = Append(sp, s)
Spec == Init /\ [][Next]_sp

T == MakeTok(Vocab, IF Crs THEN <<"crlf">> ELSE <<>>, sp)

\* What the call must return, stretch by stretch.
Expected(x) ==
    LET s == Prepared(T, "full", x)
        ids(i) == IF s[i].k # 0 THEN <<BaseSize(T) + s[i].k - 1>> ELSE FirstBest(T.m, s[i].x).ids
    IN Flat([i \in 1..Len(s) |-> ids(i)])
Ordinary(x) == FirstBest(T.m, NormText(T, "ord", x)).ids

Occurrences(x) == {<<i, k>> : i \in 0..(Len(x) - 1), k \in 1..SpecialSize(T)}
StretchesOK ==
    \A x \in Texts :
        LET s == Stretches(T, x)
            at(i) == SumSeq([j \in 1..(i - 1) |-> Len(s[j].x)])
            matches(p) == {k \in 1..SpecialSize(T) : T.sp[k] # <<>> /\ MatchAt(x, p, T.sp[k])}
        IN /\ Flat([i \in 1..Len(s) |-> s[i].x]) = x
           /\ \A i \in 1..Len(s) :
                /\ s[i].x # <<>>
                /\ IF s[i].k = 0
                   THEN /\ i < Len(s) => s[i + 1].k # 0
                        /\ \A p \in at(i)..(at(i) + Len(s[i].x) - 1) : matches(p) = {}
                   ELSE s[i].k = Min(matches(at(i)))
\* The judge of traces accepts what is expected, and only that.
JudgeOK ==
    \A x \in Texts :
        /\ EncodeOK(T, "full", "0", x, Ids(Expected(x)))
        /\ EncodeOK(T, "ord", "0", x, Ids(Ordinary(x)))
        /\ Ordinary(x) # Expected(x) => ~EncodeOK(T, "full", "0", x, Ids(Ordinary(x)))
        /\ ~EncodeOK(T, "full", "0", x, Ids(Append(Expected(x), 0)))
        /\ ~EncodeOK(T, "full", "0", x, Err("NoPath"))
        /\ DecodeOf(T, Expected(x), TRUE) = Text(LossyUtf8(NormText(T, "full", x)))
        \* without the specials
        /\ LET s == Prepared(T, "full", x)
           IN DecodeOf(T, Expected(x), FALSE)
              = Text(Flat([i \in 1..Len(s) |-> IF s[i].k = 0 THEN s[i].x ELSE <<>>]))
Emit == PrintT(ToJson([sp |-> sp, c |-> {[x |-> x, full |-> Expected(x), ord |-> Ordinary(x),
                                          back |-> NormText(T, "full", x)] : x \in Texts}]))
=============================================================================
