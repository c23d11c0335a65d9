----------------------------- MODULE Tokenizer ------------------------------
(* What a tokenizer is, and what each of its calls returns.                 *)
(*                                                                          *)
(* A tokenizer is a model (a vocabulary with its index), the names of its   *)
(* normalisation steps, and its special tokens in registration order.  Ids  *)
(* 0 .. base-1 are the vocabulary entries, ids base .. base+special-1 the   *)
(* special tokens.  A reply is a record whose k says what kind it is:       *)
(* "ids", "text", "err" (with e), or something no call may return ("panic", *)
(* "hang").                                                                 *)
EXTENDS Segment, Unicode

AddIfAbsent(s, x) == IF \E k \in 1..Len(s) : s[k] = x THEN s ELSE Append(s, x)

MakeTok(vocab, procs, specials) ==
    [m |-> Model(vocab), procs |-> procs, sp |-> FoldLeft(AddIfAbsent, <<>>, specials)]

WithSpecials(t, toks) == [t EXCEPT !.sp = FoldLeft(AddIfAbsent, @, toks)]
WithBase(t, toks) == [t EXCEPT !.m = Model(@.vocab \o toks)]

BaseSize(t) == Len(t.m.vocab)
SpecialSize(t) == Len(t.sp)
Size(t) == BaseSize(t) + SpecialSize(t)

Ids(x) == [k |-> "ids", ids |-> x]
Text(x) == [k |-> "text", text |-> x]
Err(e) == [k |-> "err", e |-> e]
Failed(r) == r.k = "err"

AllBytes(t) == \A b \in 0..255 : \E i \in t.m.idx[b] : Len(t.m.vocab[i].v) = 1

-----------------------------------------------------------------------------
(* Special tokens.  Scanning left to right, at the first position where a   *)
(* non-empty special token occurs, the earliest registered one wins.        *)

SpecialAt(t, text, i) ==
    SelectInSeq(t.sp, LAMBDA s : s # <<>> /\ MatchAt(text, i, s))

\* The stretches of a text: [k |-> 0, x |-> ordinary bytes] or
\* [k |-> index of the special token, x |-> its bytes].
Stretches(t, text) ==
    IF t.sp = <<>> THEN IF text = <<>> THEN <<>> ELSE <<[k |-> 0, x |-> text]>>
    ELSE LET close(st, i) ==
                 IF st.from < i THEN Append(st.out, [k |-> 0, x |-> SubSeq(text, st.from + 1, i)])
                 ELSE st.out
             step(st, i) ==
                 IF i < st.next THEN st
                 ELSE LET k == SpecialAt(t, text, i)
                      IN IF k = 0 THEN st
                         ELSE [out |-> Append(close(st, i), [k |-> k, x |-> t.sp[k]]),
                               from |-> i + Len(t.sp[k]), next |-> i + Len(t.sp[k])]
             end == FoldLeft(step, [out |-> <<>>, from |-> 0, next |-> 0],
                             [i \in 1..Len(text) |-> i - 1])
         IN close(end, Len(text))

\* The stretches a call works on, normalised.  how: "full" recognises special
\* tokens, "ord" does not, "model" does not normalise either.
Prepared(t, how, text) ==
    CASE how = "model" -> <<[k |-> 0, x |-> text]>>
      [] how = "ord" -> <<[k |-> 0, x |-> Normalise(t.procs, text)]>>
      [] how = "full" -> LET s == Stretches(t, text)
                         IN [i \in 1..Len(s) |-> IF s[i].k # 0 THEN s[i]
                                                 ELSE [k |-> 0, x |-> Normalise(t.procs, s[i].x)]]

NormText(t, how, text) ==
    LET s == Prepared(t, how, text) IN Flat([i \in 1..Len(s) |-> s[i].x])

\* Divide ids among the prepared stretches: every special stretch takes the
\* one id that is its own, every ordinary one takes base ids until they spell
\* it.  Returns [ok, parts], parts being one id sequence per stretch.
Divide(t, pieces, ids) ==
    LET b == BaseSize(t)
        \* st.i: current piece, st.pos: bytes of it spelled so far
        skip(st) == IF st.i <= Len(pieces) /\ pieces[st.i].k = 0 /\ st.pos = Len(pieces[st.i].x)
                    THEN [st EXCEPT !.i = @ + 1, !.pos = 0, !.parts = Append(@, st.cur), !.cur = <<>>]
                    ELSE st
        step(st, id) ==
            IF ~st.ok THEN st
            ELSE IF st.i > Len(pieces) THEN [st EXCEPT !.ok = FALSE]
            ELSE LET p == pieces[st.i]
                 IN IF p.k # 0
                    THEN IF id = b + p.k - 1
                         THEN skip([st EXCEPT !.i = @ + 1, !.parts = Append(@, <<id>>)])
                         ELSE [st EXCEPT !.ok = FALSE]
                    ELSE IF id \in 0..(b - 1) /\ t.m.vocab[id + 1].v # <<>>
                            /\ MatchAt(p.x, st.pos, t.m.vocab[id + 1].v)
                         THEN skip([st EXCEPT !.pos = @ + Len(t.m.vocab[id + 1].v), !.cur = Append(@, id)])
                         ELSE [st EXCEPT !.ok = FALSE]
        end == FoldLeft(step, skip([ok |-> TRUE, i |-> 1, pos |-> 0, cur |-> <<>>, parts |-> <<>>]), ids)
    IN [ok |-> end.ok /\ end.i > Len(pieces), parts |-> end.parts]

-----------------------------------------------------------------------------
(* Encoding.  Which occurrences survive dropout: those of single bytes, and *)
(* any of the others.  A result is possible for some set of survivors       *)
(* exactly when it is possible for the smallest set that contains it: the   *)
(* single bytes and the occurrences it uses itself.                         *)

\* Start positions of the ids of a spelled stretch.
Starts(m, ids) ==
    FoldLeft(LAMBDA st, id : [at |-> st.at + Len(m.vocab[id + 1].v), s |-> st.s \cup {<<st.at, id + 1>>}],
             [at |-> 0, s |-> {}], ids).s

BestSurvivor(m, text, ids) ==
    LET own == Starts(m, ids)
    IN BestWhere(m, text, LAMBDA i, u : Len(m.vocab[u].v) = 1 \/ <<i, u>> \in own)

BestSingles(m, text) == BestWhere(m, text, LAMBDA i, u : Len(m.vocab[u].v) = 1)

\* ids is a possible encoding of one prepared stretch at a dropout rate of
\* class p: "0" (none), "1" (all), "mid" (something in between).
PieceOK(m, text, p, ids) ==
    /\ IdsInRange(m, ids) /\ Spells(m, ids, text) /\ Live(m, ids)
    /\ CASE p = "0" -> <<Score(m, ids)>> = Best(m, text)
         [] p = "1" -> \A k \in 1..Len(ids) : Len(m.vocab[ids[k] + 1].v) = 1
         [] p = "mid" -> <<Score(m, ids)>> = BestSurvivor(m, text, ids)

\* A piece may fail exactly when no segmentation need survive.
PieceMayFail(m, text, p) ==
    IF p = "0" THEN Best(m, text) = <<>> ELSE BestSingles(m, text) = <<>>

PieceMustFail(m, text, p) ==
    IF p = "1" THEN BestSingles(m, text) = <<>> ELSE Best(m, text) = <<>>

EncodeMayFail(t, how, p, text) ==
    LET s == Prepared(t, how, text) IN \E i \in 1..Len(s) : s[i].k = 0 /\ PieceMayFail(t.m, s[i].x, p)
EncodeMustFail(t, how, p, text) ==
    LET s == Prepared(t, how, text) IN \E i \in 1..Len(s) : s[i].k = 0 /\ PieceMustFail(t.m, s[i].x, p)

EncodeIdsOK(t, how, p, text, ids) ==
    LET s == Prepared(t, how, text)
        d == Divide(t, s, ids)
    IN /\ d.ok
       /\ \A i \in 1..Len(s) : s[i].k = 0 => PieceOK(t.m, s[i].x, p, d.parts[i])

\* r is a reply the call may give.
EncodeOK(t, how, p, text, r) ==
    CASE r.k = "ids" -> EncodeIdsOK(t, how, p, text, r.ids)
      [] r.k = "err" -> r.e = "NoPath" /\ EncodeMayFail(t, how, p, text)
      [] OTHER -> FALSE

-----------------------------------------------------------------------------
(* Decoding.  Ids of a maximal run of base tokens are spelled together.     *)

DecodeOf(t, ids, inc) ==
    LET b == BaseSize(t)
        flush(st) == IF st.run = <<>> THEN st.out ELSE st.out \o LossyUtf8(st.run)
        step(st, id) ==
            IF ~st.ok THEN st
            ELSE IF id < b THEN [st EXCEPT !.run = @ \o t.m.vocab[id + 1].v]
            ELSE IF id < b + SpecialSize(t)
            THEN [st EXCEPT !.out = flush(st) \o (IF inc THEN t.sp[id - b + 1] ELSE <<>>), !.run = <<>>]
            ELSE [st EXCEPT !.ok = FALSE]
        end == FoldLeft(step, [ok |-> TRUE, out |-> <<>>, run |-> <<>>], ids)
    IN IF end.ok THEN Text(flush(end)) ELSE Err("Bounds")

ModelDecodeOf(m, ids) ==
    IF IdsInRange(m, ids) THEN Text(LossyUtf8(Spell(m, ids))) ELSE Err("Bounds")

-----------------------------------------------------------------------------
(* Look-ups.  Optional results are sequences of length 0 or 1.              *)

BaseId(t, v) ==
    IF v = <<>>
    THEN LET e == {i \in 1..BaseSize(t) : t.m.vocab[i].v = v}
         IN IF e = {} THEN <<>> ELSE <<Max(e) - 1>>
    ELSE LET e == {i \in t.m.idx[v[1]] : t.m.vocab[i].v = v}
         IN IF e = {} THEN <<>> ELSE <<(CHOOSE i \in e : TRUE) - 1>>
SpecialId(t, v) ==
    LET k == SelectInSeq(t.sp, LAMBDA s : s = v) IN IF k = 0 THEN <<>> ELSE <<BaseSize(t) + k - 1>>
TokenId(t, v) == IF BaseId(t, v) # <<>> THEN BaseId(t, v) ELSE SpecialId(t, v)

IsBase(t, id) == id \in 0..(BaseSize(t) - 1)
IsSpecial(t, id) == id \in BaseSize(t)..(Size(t) - 1)
BaseToken(t, id) == IF IsBase(t, id) THEN <<t.m.vocab[id + 1]>> ELSE <<>>
SpecialToken(t, id) == IF IsSpecial(t, id) THEN <<t.sp[id - BaseSize(t) + 1]>> ELSE <<>>
TokenOf(t, id) == IF IsBase(t, id) THEN <<t.m.vocab[id + 1].v>> ELSE SpecialToken(t, id)

\* Entries that are prefixes of text, shortest first, as <<id, length>>.
PrefixesOf(m, text) ==
    IF text = <<>> THEN <<>>
    ELSE LET c == Cands(m, text, 0)
             s == SetToSortSeq(c, LAMBDA a, b : Len(m.vocab[a].v) < Len(m.vocab[b].v))
         IN [k \in 1..Len(s) |-> <<s[k] - 1, Len(m.vocab[s[k]].v)>>]

-----------------------------------------------------------------------------
(* Written form.  Everything a tokenizer is, in order.                      *)

DocOf(t) == [vocab |-> t.m.vocab, procs |-> t.procs, sp |-> t.sp]
TokOf(d) == MakeTok(d.vocab, d.procs, d.sp)
=============================================================================
