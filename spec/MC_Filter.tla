------------------------------ MODULE MC_Filter -----------------------------
(* Filtering every small vocabulary in every way: the command as a machine  *)
(* that looks at one entry after the other, lowest scores first (in any     *)
(* order among equals), removes what it may until enough is gone, and       *)
(* writes what is left, highest first (in any order among equals).          *)
EXTENDS Train, TLC

VARIABLES in, size, min, force, rest, kept, removed, out, over
vars == <<in, size, min, force, rest, kept, removed, out, over>>

Deep == IOEnv.MC_DEEP = "1"
a == 97
Strs == << <<a>>, <<a, a>>, <<a, a, a>>, <<98>> >>
MaxN == IF Deep THEN 4 ELSE 3
Scores == {-3, -2} \cup (IF Deep THEN {-1} ELSE {})
Entries(i) == {[v |-> Strs[i], s |-> s, k |-> k] : s \in Scores, k \in BOOLEAN}
Vocabs == {v \in UNION {[1..n -> UNION {Entries(i) : i \in 1..MaxN}] : n \in 0..MaxN} :
              \A i \in 1..Len(v) : v[i] \in Entries(i)}

Init == /\ in \in Vocabs
        /\ size \in 0..(MaxN + 1)
        /\ min \in {<<>>, <<-3>>, <<-2>>, <<5>>}
        /\ force \in BOOLEAN
        /\ rest = in /\ kept = <<>> /\ removed = 0
        /\ over = (Len(in) <= size)
        /\ out = IF over THEN in ELSE <<>>
Working == ~over
Look == /\ Working /\ rest # <<>>
        /\ \E i \in {j \in 1..Len(rest) : \A k \in 1..Len(rest) : rest[j].s <= rest[k].s} :
             /\ rest' = RemoveAt(rest, i)
             /\ LET t == rest[i]
                    keep == \/ removed >= Len(in) - size
                            \/ t.k /\ ~force
                            \/ min = <<>> \/ t.s >= min[1]
                IN /\ kept' = IF keep THEN Append(kept, t) ELSE kept
                   /\ removed' = IF keep THEN removed ELSE removed + 1
        /\ UNCHANGED <<in, size, min, force, out, over>>
Write == /\ Working /\ rest = <<>>
         /\ \E p \in {q \in [1..Len(kept) -> ToSet(kept)] : \A i, j \in 1..Len(kept) : q[i] = q[j] => i = j} :
               Descending(p) /\ out' = p
         /\ over' = TRUE
         /\ UNCHANGED <<in, size, min, force, rest, kept, removed>>
Next == Look \/ Write
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Agrees == ~Working => FilterOK(in, out, size, min, force)
\* Nothing else is accepted: every accepted outcome can be produced.  Told
\* by the number of entries removed and by which may stay.
Safe == ~Working =>
    /\ \A i \in 1..Len(in) : (in[i].k /\ ~force) => \E j \in 1..Len(out) : out[j] = in[i]
    /\ min = <<>> => Len(out) = Len(in)
    /\ Len(out) >= MinOf(size, Len(in))
Halts == <>~Working
Emit == (~Working /\ (rest = <<>> \/ Len(in) <= size)) =>
            PrintT(ToJson([i |-> in, size |-> size, min |-> min, force |-> force, out |-> [j \in 1..Len(out) |-> out[j].v]]))
=============================================================================
