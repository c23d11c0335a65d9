------------------------------- MODULE Trace --------------------------------
(* Checks recorded executions of the real library.  Each line of the trace  *)
(* is one call with its arguments and reply; ev.chk names the properties    *)
(* the reply is to be judged by.  State-changing calls take the action of   *)
(* TokenGeeX; a reply the specification does not allow is reported with its *)
(* line number, and the rest of the trace is still checked.                 *)
EXTENDS TokenGeeX, Formats, NBest, Withhold, TLC

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<toks, docs, l>>
ev == Log[l]
Chk == {ev.chk[i] : i \in 1..Len(ev.chk)}
Has(r, f) == f \in DOMAIN r

\* Report a rejected line.
Must(id, p) == IF id \notin Chk \/ p THEN TRUE ELSE PrintT(<<"REJECT", l, id>>)

StateIs(t, st) ==
    /\ st.vocab = t.m.vocab
    /\ st.base_api = [i \in 1..BaseSize(t) |-> t.m.vocab[i]]
    /\ st.sp = t.sp
    /\ st.procs = t.procs
    /\ st.size = Size(t) /\ st.base = BaseSize(t) /\ st.special = SpecialSize(t)
    /\ st.model_size = BaseSize(t)

\* A call that changed slot ev.t logs the state it left.
Left == IF ~Has(ev, "st") THEN TRUE
        ELSE \A id \in Chk : Must(id, ev.r.k = "ok" /\ StateIs(toks'[ev.t], ev.st))

DoNew == ev.e = "new" /\ New(ev.t, ev.vocab, ev.procs, ev.sp) /\ Left
DoAddSpecial == ev.e = "addsp" /\ AddSpecial(ev.t, ev.toks) /\ Left
DoAddBase == ev.e = "addbase" /\ AddBase(ev.t, ev.toks) /\ Left
DoClone == ev.e = "clone" /\ Clone(ev.t, ev.from) /\ Left
DoReset == ev.e = "reset" /\ toks' = <<>> /\ docs' = <<>>

DoSave == /\ ev.e = "save" /\ Save(ev.t, ev.d)
          /\ Must("P06", ev.r.k = "ok" /\ (Has(ev, "same") => ev.same))

\* A score with more digits than a double-exact parser guarantees may come
\* back as its neighbour sa (see DESIGN.md, known finding); the log says which.
SameEntry(a, b) == a.v = b.v /\ a.k = b.k /\ (b.s = a.s \/ (Has(a, "sa") /\ b.s = a.sa))
LoadedVocab(d, got) ==
    IF Len(got) = Len(d.vocab) /\ \A i \in 1..Len(got) : SameEntry(d.vocab[i], got[i])
    THEN [i \in 1..Len(got) |-> [d.vocab[i] EXCEPT !.s = got[i].s]] ELSE d.vocab
Strip(vocab) == [i \in 1..Len(vocab) |-> [v |-> vocab[i].v, s |-> vocab[i].s, k |-> vocab[i].k]]
DoLoad ==
    /\ ev.e = "load"
    /\ LET d == docs[ev.d]
           v == IF ev.r.k = "ok" THEN LoadedVocab(d, ev.st.vocab) ELSE d.vocab
           t == MakeTok(v, d.procs, d.sp)
       IN /\ toks' = Put(toks, ev.t, t)
          /\ UNCHANGED docs
          /\ Must("P06", ev.r.k = "ok" /\ StateIs([t EXCEPT !.m.vocab = Strip(@)], ev.st))

\* Reading a document written by hand.
DoRead ==
    /\ ev.e = "read"
    /\ LET a == Read(ev.doc)
       IN /\ Must("P07", IF a.ok THEN ev.r.k = "ok" /\ StateIs(MakeTok(a.vocab, a.procs, a.sp), ev.st)
                         ELSE ev.r.k = "err")
          /\ UNCHANGED lib

\* Reading every proper prefix of a written document.
DoCuts == /\ ev.e = "cuts" /\ UNCHANGED lib
          /\ Must("P07", ev.r.k = "cuts" /\ ev.r.tried > 0 /\ ev.r.accepted = <<>> /\ ev.r.panics = <<>>)

T == toks[ev.t]

DoEncode ==
    /\ ev.e = "encode" /\ UNCHANGED lib
    /\ Must("P01",
            \/ ev.r.k = "ids" /\ ev.dec = Text(NormText(T, ev.how, ev.x))
            \/ ev.r.k = "err" /\ EncodeMayFail(T, ev.how, ev.p, ev.x))
    \* every text, with no exception: all single bytes are tokens
    /\ Must("P23", ev.r.k = "ids" /\ ev.dec = Text(NormText(T, ev.how, ev.x)))
    /\ Must("P02", /\ EncodeOK(T, ev.how, "0", ev.x, ev.r)
                   /\ (Has(ev, "again") => ev.again = ev.r))
    /\ Must("P03", EncodeOK(T, ev.how, ev.p, ev.x, ev.r))
    /\ Must("P06", EncodeOK(T, ev.how, ev.p, ev.x, ev.r))
    /\ Must("P04",
            LET s == Prepared(T, ev.how, ev.x) IN
            \/ ev.r.k = "err" /\ EncodeMayFail(T, ev.how, ev.p, ev.x)
            \/ /\ ev.r.k = "ids"
               /\ LET d == Divide(T, s, ev.r.ids)
                  IN /\ d.ok
                     \* each stretch as when it is encoded alone
                     /\ Has(ev, "parts") => ev.parts = [i \in 1..Len(s) |-> Ids(d.parts[i])])
    /\ Must("P09",
            \/ ev.r.k = "ids" /\ Divide(T, Prepared(T, ev.how, ev.x), ev.r.ids).ok
            \/ ev.r.k = "err" /\ EncodeMayFail(T, ev.how, ev.p, ev.x))

\* The same text several times at one rate: outcomes and how often each came.
DoMany ==
    /\ ev.e = "many" /\ UNCHANGED lib
    /\ Must("P03", \A i \in 1..Len(ev.outs) : EncodeOK(T, ev.how, ev.p, ev.x, ev.outs[i][1]))
    /\ Must("P02", Len(ev.outs) = 1)

\* Dropout frequency: lo <= count <= hi for the outcome that spells the
\* whole text with its one multi-byte token (bounds more than seven standard
\* deviations apart, computed by the driver from the rate).
DoRate == /\ ev.e = "rate" /\ UNCHANGED lib
          /\ Must("P03", \A i \in 1..Len(ev.rates) :
                            ev.rates[i].lo <= ev.rates[i].n /\ ev.rates[i].n <= ev.rates[i].hi)

\* Many runs, or one batch, on a short text: every outcome as often as the
\* rate says.
DoSpread ==
    /\ ev.e = "spread" /\ UNCHANGED lib
    /\ \A id \in Chk : Must(id,
         IF ev.how = "lattice"
         THEN \A i \in 1..Len(ev.outs) : ev.outs[i][1].k = "nodes"
         ELSE \A i \in 1..Len(ev.outs) : ev.outs[i][1].k \in {"ids", "err"})
    /\ \A id \in Chk : Must(id,
         IF ev.how = "lattice"
         THEN NodesOK(T.m, ev.x, ev.num, ev.den, ev.n,
                [i \in 1..Len(ev.outs) |-> <<IF ev.outs[i][1].k = "nodes" THEN ev.outs[i][1].nodes ELSE <<>>, ev.outs[i][2]>>])
         ELSE OutcomesOK(T.m, ev.x, ev.num, ev.den, ev.n,
                [i \in 1..Len(ev.outs) |-> <<IF ev.outs[i][1].k = "ids" THEN <<ev.outs[i][1].ids>> ELSE <<>>, ev.outs[i][2]>>]))

\* Texts with so many places for their one long token w (which all of them
\* take when nothing is withheld) that an even rate never gives the same
\* answer twice: each call, and each element of a batch, draws for itself.
DoApart ==
    /\ ev.e = "apart" /\ UNCHANGED lib
    /\ LET long == {i \in 1..Len(T.m.vocab) : Len(T.m.vocab[i].v) > 1}
           w == CHOOSE i \in long : TRUE
           all == [k \in 1..(Len(ev.x) \div Len(T.m.vocab[w].v)) |-> w - 1]
       IN Assert(/\ Cardinality(long) = 1 /\ Len(all) >= 64 /\ ev.p = "mid"
                 /\ EncodeOK(T, ev.how, "0", ev.x, [k |-> "ids", ids |-> all]), "not many places")
    /\ \A id \in Chk : Must(id,
         /\ \A i \in 1..Len(ev.rs) : ev.rs[i].k = "ids"
         /\ Cardinality({ev.rs[i].ids : i \in 1..Len(ev.rs)}) = Len(ev.rs)
         /\ \A i \in 1..Min({2, Len(ev.rs)}) : EncodeOK(T, ev.how, ev.p, ev.x, ev.rs[i]))

DoDecode ==
    /\ ev.e = "decode" /\ UNCHANGED lib
    /\ \A id \in Chk :
         Must(id, ev.r = IF ev.how = "model" THEN ModelDecodeOf(T.m, ev.ids) ELSE DecodeOf(T, ev.ids, ev.inc))

\* A batch call against the single calls.
BatchOf(singles) ==
    IF \E i \in 1..Len(singles) : singles[i].k = "err"
    THEN {singles[i] : i \in {j \in 1..Len(singles) : singles[j].k = "err"}}
    ELSE {[k |-> "batch", rs |-> singles]}
DoBatch ==
    /\ ev.e = "batch" /\ UNCHANGED lib
    /\ Must("P08", ev.r \in BatchOf(ev.singles))

DoShare ==
    /\ ev.e = "share" /\ UNCHANGED lib
    /\ Must("P08", ev.r.k = "runs" /\ \A i \in 1..Len(ev.r.runs) : ev.r.runs[i] = ev.singles)

DoQuery ==
    /\ ev.e = "query" /\ UNCHANGED lib
    /\ \A p \in Chk : Must(p,
         /\ ev.r.k = "ok"
         /\ \A i \in 1..Len(ev.ids) :
              LET q == ev.ids[i] IN
              /\ q.is_base = IsBase(T, q.id) /\ q.is_sp = IsSpecial(T, q.id)
              /\ q.tok = TokenOf(T, q.id) /\ q.sp = SpecialToken(T, q.id)
              /\ q.base = BaseToken(T, q.id) /\ q.model = BaseToken(T, q.id)
         /\ \A i \in 1..Len(ev.toks) :
              LET q == ev.toks[i] IN
              /\ q.base = BaseId(T, q.v) /\ q.model = BaseId(T, q.v)
              /\ q.sp = SpecialId(T, q.v) /\ q.tok = TokenId(T, q.v))

DoState == /\ ev.e = "state" /\ UNCHANGED lib
           /\ \A id \in Chk : Must(id, ev.r.k = "ok" /\ StateIs(T, ev.st))

DoPrefix ==
    /\ ev.e = "prefix" /\ UNCHANGED lib
    /\ Must("P11", ev.r.k = "ok" /\ ev.found = PrefixesOf(T.m, ev.x))

DoNorm ==
    /\ ev.e = "norm" /\ UNCHANGED lib
    /\ Must("P09", ev.r.k = "ok" /\ ev.y = Step(ev.form, ev.x) /\ ev.post = ev.x)

DoNormLong ==
    /\ ev.e = "normlong" /\ UNCHANGED lib
    /\ Must("P09", ev.r.k = "ok" /\ NormalisesTo(ev.form, ev.x, ev.y) /\ ev.post = ev.x)

\* Two texts, canonically equivalent, must get the same ids under a form.
DoEquiv ==
    /\ ev.e = "equiv" /\ UNCHANGED lib
    /\ Must("P09", NF("nfd", CodePoints(ev.x)) = NF("nfd", CodePoints(ev.y)) => ev.rx = ev.ry)

DoLattice ==
    /\ ev.e = "lattice" /\ UNCHANGED lib
    /\ \A id \in Chk : Must(id, ev.r.k = "ok")
    /\ \A i \in 1..Len(ev.sents) :
         LET s == ev.sents[i] IN
         /\ Must("P12", (Segmentable(T.m, s.x) =>
                          /\ PathOK(T.m, s.x, s.best) /\ <<PathScore(T.m, s.best)>> = Best(T.m, s.x)
                          /\ \A j \in 1..Len(s.nbest) : NBestOK(T.m, s.x, s.nbest[j].n, s.nbest[j].paths)))
         /\ Must("P13", (Segmentable(T.m, s.x) => MarginalOK(T.m, ev.w, s)))

DoMargBlocks ==
    /\ ev.e = "margblocks" /\ UNCHANGED lib
    /\ Must("P13", ev.r.k = "ok" /\ MarginalBlocksOK(T.m, ev.w, ev.sep, ev.blocks, ev.f, ev.unit))

\* A large n, by how many of the results reach each score.
DoHist ==
    /\ ev.e = "hist" /\ UNCHANGED lib
    /\ Must("P12", ev.r.k = "ok" /\ ev.odd = 0 /\ ev.sorted /\ ev.distinct = ev.found
                   /\ HistogramOK(T.m, ev.x, ev.n, ev.hist))

\* The same call to two implementations.
DoParity == /\ ev.e = "parity" /\ UNCHANGED lib
            /\ Must("P24", ev.a = ev.b)
DoHolds == /\ ev.e = "holds" /\ UNCHANGED lib
           /\ \A id \in Chk : Must(id, ev.ok)

TraceInit == LibInit /\ l = 1
TraceNext ==
    /\ l <= Len(Log) /\ l' = l + 1
    /\ \/ DoNew \/ DoAddSpecial \/ DoAddBase \/ DoClone \/ DoReset \/ DoSave \/ DoLoad
       \/ DoRead \/ DoCuts \/ DoEncode \/ DoMany \/ DoRate \/ DoSpread \/ DoApart \/ DoDecode \/ DoBatch \/ DoShare
       \/ DoQuery \/ DoState \/ DoPrefix \/ DoNorm \/ DoNormLong \/ DoEquiv \/ DoLattice \/ DoMargBlocks \/ DoHist \/ DoParity \/ DoHolds
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted == TLCGet("stats").diameter = Len(Log) + 1
=============================================================================
