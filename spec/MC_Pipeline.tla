----------------------------- MODULE MC_Pipeline ----------------------------
(* The stages of making a tokenizer, in every order: generate first, then   *)
(* any of prune, filter and merge.  A stage is known by what it may take    *)
(* away and add; whatever it does within that, the result is a tokenizer    *)
(* that encodes everything, has all that is protected, and the special      *)
(* tokens and steps it started with.  The sequences are printed for replay. *)
EXTENDS Train, TLC

VARIABLES h, t, was
vars == <<h, t, was>>

Deep == IOEnv.MC_DEEP = "1"
Depth == IF Deep THEN 3 ELSE 2
\* Two bytes stand for the 256.
a == <<97>>
b == <<98>>
Longer == {<<97, 98>>, <<98, 98>>, <<97, 98, 98>>}
entry(v, k) == [v |-> v, s |-> 0, k |-> k]
\* The ways to call each stage.
Calls == {<<"prune", n, e>> : n \in {"none", "some", "all"}, e \in {0, 2}}
         \cup {<<"filter", m, n>> : m \in {"low", "high"}, n \in {"some", "all"}}
         \cup {<<"merge", n, f>> : n \in {0, 3}, f \in {"any", "few"}}
Firsts == {<<"generate", p, s, l>> : p \in {<<>>, <<"crlf", "nfc">>, <<"nfd">>}, s \in {<<>>, <<"<s>", "a">>}, l \in {"added", "plain", "split"}}

ToSeqOf(S) == SetToSeq(S)
Init == /\ h \in {<<c>> : c \in Firsts}
        /\ \E added \in SUBSET Longer, found \in SUBSET Longer :
              /\ h[1][4] = "added" \/ added = {}
              /\ t = [vocab |-> ToSeqOf({entry(a, TRUE), entry(b, TRUE)} \cup {entry(v, TRUE) : v \in added}
                                          \cup {entry(v, FALSE) : v \in found \ added}),
                      sp |-> h[1][3], procs |-> h[1][2]]
        /\ was = t
Stage(c) ==
    /\ h' = Append(h, c)
    /\ was' = t
    /\ LET have == ToSet(t.vocab)
           free == {e \in have : ~e.k}
       IN CASE c[1] \in {"prune", "filter"} ->
                 \E gone \in SUBSET free : /\ (c[2] = "none" => gone = {})
                                          /\ t' = [t EXCEPT !.vocab = ToSeqOf(have \ gone)]
            [] c[1] = "merge" ->
                 \E new \in SUBSET {v \in Longer : /\ v \notin Values(t.vocab)
                                                   /\ \E x, y \in Values(t.vocab) : v = x \o y} :
                    /\ (c[2] = 0 => new = {})
                    /\ t' = [t EXCEPT !.vocab = @ \o ToSeqOf({entry(v, FALSE) : v \in new})]
Next == Len(h) <= Depth /\ \E c \in Calls : Stage(c)
Spec == Init /\ [][Next]_vars
\* The stages seen from outside.
Outside(x) == [x EXCEPT !.vocab = [i \in 1..Len(x.vocab) |-> [x.vocab[i] EXCEPT !.s = "finite"]]]
Preserving == Len(h) > 1 => StagePreserves(h[Len(h)][1], Outside(was), Outside(t))
\* Every text has an encoding, which spells it.
Texts == UNION {[1..n -> {97, 98}] : n \in 0..3}
Total == LET m == Model(t.vocab) IN \A x \in Texts : LET f == FirstBest(m, x) IN f.ok /\ Spell(m, f.ids) = x
SameEnds == t.sp = h[1][3] /\ t.procs = h[1][2]
\* Only the shape of a history counts for replay.
Shape == <<h, t>>
Emit == (Len(h) = Depth + 1 /\ Len(t.vocab) = 2) => PrintT(ToJson(h))
=============================================================================
