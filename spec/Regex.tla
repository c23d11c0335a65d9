------------------------------- MODULE Regex --------------------------------
(* Regular expressions over sequences of code points, with the matching     *)
(* order of a backtracking (leftmost-first) engine.  A pattern is a record: *)
(*   [k |-> "chr", neg, rs]     one character in (or not in) the ranges     *)
(*   [k |-> "cat", xs]          one after another                           *)
(*   [k |-> "alt", xs]          the first that leads to a match             *)
(*   [k |-> "rep", x, lo, hi, lazy]   repetition; hi = -1: no limit         *)
(*   [k |-> "bol"], [k |-> "eol"]     start and end of the text             *)
EXTENDS Bytes

InRanges(c, rs) == \E i \in 1..Len(rs) : c >= rs[i][1] /\ c <= rs[i][2]

Uniq(s) == FoldLeft(LAMBDA a, x : IF \E i \in 1..Len(a) : a[i] = x THEN a ELSE Append(a, x), <<>>, s)

\* The ends of the matches that start after i characters, most preferred
\* first, each once.
RECURSIVE Ends(_, _, _), Reps(_, _, _, _, _)
Ends(a, s, i) ==
    CASE a.k = "chr" -> IF i < Len(s) /\ InRanges(s[i + 1], a.rs) # a.neg THEN <<i + 1>> ELSE <<>>
      [] a.k = "cat" -> FoldLeft(LAMBDA es, x : Uniq(Flat([k \in 1..Len(es) |-> Ends(x, s, es[k])])), <<i>>, a.xs)
      [] a.k = "alt" -> Uniq(Flat([k \in 1..Len(a.xs) |-> Ends(a.xs[k], s, i)]))
      [] a.k = "rep" -> Reps(a, s, i, 0, [seen |-> {}, out |-> <<>>]).out
      [] a.k = "bol" -> IF i = 0 THEN <<i>> ELSE <<>>
      [] a.k = "eol" -> IF i = Len(s) THEN <<i>> ELSE <<>>
\* The search that a backtracking engine makes through the repetitions, n of
\* them done, i characters consumed; what was searched once gives nothing new
\* when it is come upon again.
Reps(a, s, i, n, st) ==
    LET state == <<i, IF a.hi = -1 THEN MinOf(n, a.lo) ELSE n>>
        stop(t) == IF n < a.lo \/ \E k \in 1..Len(t.out) : t.out[k] = i THEN t ELSE [t EXCEPT !.out = Append(@, i)]
        one == IF a.hi # -1 /\ n >= a.hi THEN <<>> ELSE SelectSeq(Ends(a.x, s, i), LAMBDA e : e > i)
        more(t) == FoldLeft(LAMBDA u, e : Reps(a, s, e, n + 1, u), t, one)
        here == [st EXCEPT !.seen = @ \cup {state}]
    IN IF state \in st.seen THEN st
       ELSE IF a.lazy THEN more(stop(here)) ELSE stop(more(here))

\* The whole of s is a match.
Accepts(a, s) == LET es == Ends(a, s, 0) IN \E k \in 1..Len(es) : es[k] = Len(s)

\* Some part of s is a match.
IsMatch(a, s) == \E i \in 0..Len(s) : Ends(a, s, i) # <<>>

\* Successive non-overlapping matches, left to right, as <<start, end>>.  An
\* empty match may not touch the end of the match before it.
FindAll(a, s) ==
    LET step(st, i) ==
            IF i < st.next THEN st
            ELSE LET es == Ends(a, s, i)
                 IN IF es = <<>> \/ (es[1] = i /\ i = st.last) THEN st
                    ELSE [next |-> MaxOf(es[1], i + 1), last |-> es[1], out |-> Append(st.out, <<i, es[1]>>)]
    IN FoldLeft(step, [next |-> 0, last |-> -1, out |-> <<>>], [k \in 1..(Len(s) + 1) |-> k - 1]).out

-----------------------------------------------------------------------------
(* Building patterns.                                                       *)
Chr(rs) == [k |-> "chr", neg |-> FALSE, rs |-> rs]
NotChr(rs) == [k |-> "chr", neg |-> TRUE, rs |-> rs]
Lit(c) == Chr(<<<<c, c>>>>)
Cat(xs) == [k |-> "cat", xs |-> xs]
Alt(xs) == [k |-> "alt", xs |-> xs]
Rep(x, lo, hi) == [k |-> "rep", x |-> x, lo |-> lo, hi |-> hi, lazy |-> FALSE]
Plus(x) == Rep(x, 1, -1)
Opt(x) == Rep(x, 0, 1)
Word(cs) == Cat([i \in 1..Len(cs) |-> Lit(cs[i])])
=============================================================================
