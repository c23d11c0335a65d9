----------------------------- MODULE MC_Viterbi -----------------------------
(* The encoder as a machine: it walks over the text; at each position that  *)
(* some tokens reach it offers every matching token, of which chance may    *)
(* withhold those of several bytes; an offer replaces what is known of the  *)
(* position it leads to only if it is strictly better; in the end it walks  *)
(* back.  Checked against the segmentations that use what was not withheld. *)
EXTENDS Tokenizer, TLC

VARIABLES vocab, text, drop, at, dp, gone, out
vars == <<vocab, text, drop, at, dp, gone, out>>

Deep == IOEnv.MC_DEEP = "1"
a == 97
b == 98
Strings == {<<a>>, <<b>>, <<a, b>>, <<b, a>>, <<a, b, a>>} \cup (IF Deep THEN {<<a, a>>, <<b, b, a>>} ELSE {})
Scores == {-1, -2}
Texts == UNION {[1..n -> {a, b}] : n \in 0..(IF Deep THEN 5 ELSE 4)}
Unset == [ok |-> FALSE, s |-> 0, from |-> 0, t |-> 0]

Init == /\ vocab \in UNION {[1..n -> [v : Strings, s : Scores, k : {FALSE}]] : n \in 1..(IF Deep THEN 3 ELSE 2)}
        /\ text \in Texts
        /\ drop \in {"0", "mid", "1"}
        /\ at = 0
        /\ dp = [i \in 0..Len(text) |-> [Unset EXCEPT !.ok = (i = 0)]]
        /\ gone = {}
        /\ out = "working"

m == Model(vocab)
Multi(i) == {<<i, t>> : t \in {u \in Cands(m, text, i) : Len(vocab[u].v) > 1}}

\* One position: the tokens in the order the prefix search gives them.
Relax(dropped) ==
    LET order == SetToSortSeq({t \in Cands(m, text, at) : <<at, t>> \notin dropped},
                              LAMBDA t, u : Len(vocab[t].v) < Len(vocab[u].v))
        offer(d, t) ==
            LET j == at + Len(vocab[t].v)
                sc == d[at].s + vocab[t].s
            IN IF ~d[j].ok \/ sc > d[j].s
               THEN [d EXCEPT ![j] = [ok |-> TRUE, s |-> sc, from |-> at, t |-> t]] ELSE d
    IN FoldLeft(offer, dp, order)

Step1 ==
    /\ out = "working" /\ at < Len(text)
    /\ IF dp[at].ok
       THEN \E dropped \in (CASE drop = "0" -> {{}} [] drop = "1" -> {Multi(at)} [] OTHER -> SUBSET Multi(at)) :
              /\ dp' = Relax(dropped)
              /\ gone' = gone \cup dropped
       ELSE UNCHANGED <<dp, gone>>
    /\ at' = at + 1
    /\ UNCHANGED <<vocab, text, drop, out>>

RECURSIVE Back(_)
Back(j) == IF j = 0 THEN <<>> ELSE Append(Back(dp[j].from), dp[j].t - 1)
Finish ==
    /\ out = "working" /\ at = Len(text)
    /\ out' = IF dp[at].ok THEN "done" ELSE "nopath"
    /\ UNCHANGED <<vocab, text, drop, at, dp, gone>>
Next == Step1 \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
Prefix(j) == SubSeq(text, 1, j)
Alive(s) == \A o \in Starts(m, s) : o \notin gone
\* While it runs: what is known of a position is the best way there among
\* the tokens that start before `at` and were not withheld.
Sofar(j) == {s \in Segs(m, Prefix(j)) : Alive(s) /\ \A o \in Starts(m, s) : o[1] < at}
Invariant ==
    \A j \in 0..Len(text) :
        /\ dp[j].ok <=> Sofar(j) # {}
        /\ (dp[j].ok /\ j <= at) => dp[j].s = Max({Score(m, s) : s \in Sofar(j)})
        /\ (dp[j].ok /\ j <= at) => Back(j) \in Sofar(j)
\* In the end: a reply that the specification of encoding allows, and
\* without dropout the one the training commands count by.
Reply == IF out = "done" THEN Ids(Back(Len(text))) ELSE Err("NoPath")
Tok == [m |-> m, procs |-> <<>>, sp |-> <<>>]
Allowed == out # "working" =>
    /\ EncodeOK(Tok, "model", drop, text, Reply)
    /\ drop = "0" => (out = "done") = FirstBest(m, text).ok /\ (out = "done" => Back(Len(text)) = FirstBest(m, text).ids)
Ends == <>(out # "working")
=============================================================================
