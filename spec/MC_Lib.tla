------------------------------- MODULE MC_Lib -------------------------------
(* Every short history of constructing, extending, copying, writing and     *)
(* reading back tokenizers.  h records the history, so that every path is a *)
(* behaviour of its own; printed for replay are the calls and all that can  *)
(* be asked of the tokenizers they leave behind.                            *)
EXTENDS TokenGeeX, TLC

VARIABLE h
vars == <<toks, docs, h>>

Deep == IOEnv.MC_DEEP = "1"
Depth == IF Deep THEN 4 ELSE 3
a == 97
b == 98
tok(v, s, k) == [v |-> v, s |-> s, k |-> k]
Vocabs == {<<>>, <<tok(<<a>>, -1, TRUE)>>, <<tok(<<a>>, -1, FALSE), tok(<<>>, -2, FALSE), tok(<<a>>, -3, TRUE)>>}
NewBase == {<<tok(<<a>>, -4, FALSE)>>, <<tok(<<b>>, -1, FALSE), tok(<<a>>, -2, FALSE)>>, <<tok(<<>>, 0, TRUE)>>, <<>>}
Specials == {<<>>, <<(<<a>>)>>, <<(<<b>>), (<<>>), (<<b>>)>>}
NewSpecials == {<<(<<b>>)>>, <<(<<>>), (<<a>>)>>, <<(<<195, 169>>), (<<a, b>>), (<<195, 169>>)>>}
Slots == {1, 2}
Procs == {<<>>, <<"crlf", "nfkc">>}

Did(rec) == h' = Append(h, rec)
Summary(t) == [vocab |-> [i \in 1..Len(t.m.vocab) |-> <<t.m.vocab[i].v, t.m.vocab[i].s, t.m.vocab[i].k>>],
               sp |-> t.sp, procs |-> t.procs]

Init == LibInit /\ h = <<>>
Next ==
    /\ Len(h) < Depth
    /\ \/ \E t \in Slots, v \in Vocabs, p \in Procs, s \in Specials :
             /\ t = 1 \/ (h # <<>> /\ p = <<>>)
             /\ (h # <<>>) => (v # <<>> /\ s # <<>>)
             /\ New(t, v, p, s)
             /\ Did([op |-> "new", t |-> t, vocab |-> v, procs |-> p, sp |-> s])
       \/ \E t \in DOMAIN toks, s \in NewSpecials :
             AddSpecial(t, s) /\ Did([op |-> "addsp", t |-> t, toks |-> s])
       \/ \E t \in DOMAIN toks, v \in NewBase :
             AddBase(t, v) /\ Did([op |-> "addbase", t |-> t, toks |-> v])
       \/ \E t \in Slots, f \in DOMAIN toks :
             t # f /\ Clone(t, f) /\ Did([op |-> "clone", t |-> t, f |-> f])
       \/ \E t \in DOMAIN toks :
             Save(t, "d") /\ Did([op |-> "save", t |-> t])
       \/ \E t \in Slots, d \in DOMAIN docs :
             Load(t, d) /\ Did([op |-> "load", t |-> t])
Spec == Init /\ [][Next]_vars

\* Only growth, and nobody else is touched.
Untouched == \A t \in DOMAIN toks : (h' # h /\ h'[Len(h')].t # t) => toks'[t] = toks[t]
Growth == \A t \in DOMAIN toks :
             (h' # h /\ h'[Len(h')].t = t /\ h'[Len(h')].op \in {"addsp", "addbase", "save"}) => Grows(toks[t], toks'[t])
Steps == [][Untouched /\ Growth]_vars

\* The answers of the look-ups in the end.
Lookups(t) == [ids |-> [i \in 1..(Size(t) + 2) |-> <<TokenOf(t, i - 1), BaseToken(t, i - 1) # <<>>, SpecialToken(t, i - 1) # <<>>>>],
               toks |-> {<<v, TokenId(t, v), BaseId(t, v), SpecialId(t, v)>> : v \in {<<>>, <<a>>, <<b>>, <<a, b>>, <<195, 169>>, <<a, a>>}}]
Emit == h = <<>> \/ PrintT(ToJson([h |-> h, slots |-> {<<t, Summary(toks[t]), Lookups(toks[t])>> : t \in DOMAIN toks}]))
=============================================================================
