----------------------------- MODULE TrainTrace -----------------------------
(* Checks recorded runs of the training commands.  Each line is one run of  *)
(* the real program: what it was given and what it left.  A line the        *)
(* specification does not allow is reported; one about which it says        *)
(* nothing (a tie that rounding may break either way) is counted apart.     *)
EXTENDS Chance, TLC

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
ev == Log[l]
Chk == {ev.chk[i] : i \in 1..Len(ev.chk)}

Judge(v) ==
    \A id \in Chk : CASE v = "ok" -> TRUE
                      [] v = "tie" -> PrintT(<<"SKIP", l, id>>)
                      [] OTHER -> PrintT(<<"REJECT", l, id>>)
Holds(p) == IF p THEN "ok" ELSE "bad"

Same == ev.pa = ev.pb       \* special tokens and normalisation steps
Sampled == Samples(ev.sources, ev.pa.procs)

BlocksOK(vs, pats, searches) == Blocky(ev.sources, vs, pats, searches, ev.pa.procs)
Wholes == LET w == SelectSeq(ev.sources, LAMBDA s : Has(s, "blocks")) IN [i \in 1..Len(w) |-> w[i].blocks]
Shorts == SelectSeq(ev.sources, LAMBDA s : ~Has(s, "blocks"))

Filter == ev.e = "filter"
          /\ Judge(Holds(ev.r = "ok" /\ Same /\ FilterOK(ev.in, ev.out, ev.size, ev.min, ev.force)))

Merge == ev.e = "merge"
         /\ LET o == [ev.o EXCEPT !.allow = Pattern(@)]
            IN Judge(IF ev.r # "ok" \/ ~Same \/ ~BlocksOK(Values(ev.in), {}, {o.allow}) THEN "bad" ELSE MergeVerdict(ev.in, ev.out, Sampled, o))

Prune == ev.e = "prune"
         /\ Assert(ThinnedOK(Sampled, ev.times), "not so many of each")
         /\ Judge(IF ev.r # "ok" \/ ~Same \/ ~BlocksOK(Values(ev.in), {}, {}) THEN "bad"
                  ELSE PruneVerdict(ev.in, ev.out, Thinned(Sampled, ev.times), ev.o))

\* With re-estimation: scores only compared with each other.
PruneEM == ev.e = "pruneem"
           /\ Judge(Holds(/\ ev.r = "ok" /\ Same /\ PruneBounds(ev.in, ev.out, ev.o.target)
                          /\ Len(ev.in) > ev.o.target => Descending(ev.out)
                          /\ Len(ev.out) > ev.o.target => Irreducible(ev.out)))

Em == ev.e = "em"
      /\ Judge(IF ev.r = "crash" /\ EstimateMayFail(ev.in, ev.w, Sampled, ev.unit) THEN "tie"
               ELSE IF ev.r # "ok" \/ ~Same \/ ~BlocksOK(Values(ev.in), {}, {}) THEN "bad"
               ELSE EstimateVerdict(ev.in, ev.w, Sampled, ev.f, ev.fsum, ev.unit))

Rises == ev.e = "rises" /\ Judge(Holds(ev.r = "ok" /\ Same /\ RisesOK(Sampled, ev.order, ev.d)))

Rounds == ev.e = "rounds"
          /\ Judge(IF ev.r # "ok" \/ ~Same THEN "bad" ELSE RoundsVerdict(ev.stages, ev.out, Sampled))
\* Several steps in one run, and one run for each.
Steps == ev.e = "steps" /\ Judge(Holds(ev.r1 = "ok" /\ ev.r2 = "ok" /\ Same /\ Alike(ev.one, ev.many) /\ Descending(ev.one)))

\* One run with one thread and one with more, both put in order of values.
Twins == ev.e = "twins" /\ Judge(Holds(ev.r1 = "ok" /\ ev.r2 = "ok" /\ Same /\ AlikeInOrder(ev.one, ev.many)))

Generate ==
    ev.e = "generate"
    /\ LET o == [ev.o EXCEPT !.allow = [i \in 1..Len(@) |-> Pattern(@[i])],
                             !.split = [i \in 1..Len(@) |-> Pattern(@[i])]]
           freq == Frequencies(Samples(Shorts, ev.pa.procs), Wholes, o)
       \* a pattern may be beyond what its engine can decide on a sample: then
       \* there is no vocabulary, rather than another one
       IN Judge(IF ev.giveup /\ ev.r = "crash" THEN "ok" ELSE
                Holds(/\ ev.r = "ok" /\ Same
                      /\ BlocksOK({v \in ToSet(Listed(o)) : Len(v) > 1}, {o.split[i] : i \in DOMAIN o.split},
                                  {o.allow[i] : i \in {j \in DOMAIN o.allow : o.split = <<>>}})
                      /\ Wholes # <<>> => o.allow # <<>> \/ o.split # <<>>
                      /\ GeneratedOK(ev.out, Sampled, o, freq)
                      /\ ev.exact => GeneratedScoresOK(ev.out, ev.ratio, ev.byteprob, o, freq)))

\* Insertion at a rate.  f: <<bytes, frequency>> recovered from the scores.
Opts == [ev.o EXCEPT !.allow = [i \in 1..Len(@) |-> Pattern(@[i])], !.split = [i \in 1..Len(@) |-> Pattern(@[i])]]
Insertion == ev.e = "insertion"
             /\ Judge(Holds(ev.r = "ok" /\ Same /\ InsertionOK(ev.f, Sampled, Opts, ev.num, ev.den)))
Crowd == ev.e = "crowd"
         /\ Judge(Holds(ev.r = "ok" /\ Same /\ CrowdOK(ev.f, Sampled, Opts, ev.num, ev.den)))
Dropout == ev.e = "dropout"
           /\ Judge(Holds(ev.r = "ok" /\ Same /\ Len(Sampled) = 1
                          /\ DropoutOK(Model(ev.in), ev.w, Sampled[1][1], Sampled[1][2], ev.f, ev.num, ev.den, ev.unit)))
DropCrowd == ev.e = "dropcrowd"
             /\ Judge(Holds(ev.r = "ok" /\ Same
                            /\ DropCrowdOK(Model(ev.in), ev.w, ev.x, ev.fs, ev.num, ev.den, ev.unit)))
DropSteps == ev.e = "dropsteps"
             /\ Judge(Holds(ev.r = "ok" /\ Same /\ DropStepsOK(ev.in, Sampled, ev.f, ev.num, ev.den, ev.unit)))

Mine == ev.e = "mine"
        /\ LET pats == [i \in 1..Len(ev.pats) |-> Pattern(ev.pats[i])]
           IN Judge(Holds(/\ ev.r = "ok" /\ Blocky(ev.sources, {}, ToSet(pats), {}, <<>>)
                          /\ MinedOK(ev.out, ev.n, Idioms(Samples(ev.sources, <<>>), pats))))

\* A composed pattern: for each text, whether it was accepted.
Accept ==
    ev.e = "accept"
    /\ LET ps == [i \in 1..Len(ev.pats) |-> Pattern(ev.pats[i])]
       IN Judge(Holds(/\ ev.r = "ok"
                      /\ \A i \in 1..Len(ev.items) :
                           LET c == CodePoints(ev.items[i].x)
                           IN ev.items[i].got = (\E j \in 1..Len(ps) : Accepts(ps[j], c))))

Stage == ev.e = "stage"
         /\ Judge(Holds(ev.r = "ok" /\ StagePreserves(ev.cmd, ev.a, ev.b)))

Reset == ev.e = "reset"

Init == l = 1
Next == /\ l <= Len(Log) /\ l' = l + 1
        /\ \/ Filter \/ Merge \/ Prune \/ PruneEM \/ Em \/ Rises \/ Rounds \/ Steps \/ Twins \/ Generate \/ Mine \/ Accept \/ Stage
           \/ Insertion \/ Crowd \/ Dropout \/ DropCrowd \/ DropSteps \/ Reset
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter = Len(Log) + 1
=============================================================================
