------------------------------ MODULE MC_Samples ----------------------------
(* Reading a file of samples byte by byte: a sample ends where a zero byte  *)
(* or the end of the file is met, nothing is made of empty ones, and of the *)
(* n there are the first so many are used as the proportion says; files are *)
(* taken one after the other.                                               *)
EXTENDS Train, TLC

VARIABLES files, at, pos, cur, found, used, over
vars == <<files, at, pos, cur, found, used, over>>

Deep == IOEnv.MC_DEEP = "1"
a == 97
b == 98
Raws == UNION {[1..n -> {0, a, b}] : n \in 0..(IF Deep THEN 6 ELSE 4)}
Second == {<<>>, <<a>>, <<0, b, 0, b>>}
Parts == {<<0, 1>>, <<1, 4>>, <<1, 2>>, <<3, 4>>, <<1, 1>>, <<5, 4>>}
File(raw, p) == [raw |-> raw, num |-> p[1], den |-> p[2]]

Init == /\ \/ \E raw \in Raws, p \in Parts : files = <<File(raw, p)>>
           \/ \E raw \in {r \in Raws : Len(r) = 3}, s \in Second, p \in {<<1, 2>>, <<1, 1>>} :
                files \in {<<File(raw, p), File(s, <<1, 1>>)>>, <<File(s, <<1, 2>>), File(raw, p)>>}
        /\ at = 1 /\ pos = 1 /\ cur = <<>> /\ found = <<>> /\ used = <<>> /\ over = FALSE
Put(c) == IF c = <<>> THEN found ELSE Append(found, c)
Byte == /\ ~over /\ pos <= Len(files[at].raw)
        /\ LET x == files[at].raw[pos]
           IN IF x = 0 THEN cur' = <<>> /\ found' = Put(cur)
              ELSE cur' = Append(cur, x) /\ found' = found
        /\ pos' = pos + 1
        /\ UNCHANGED <<files, at, used, over>>
EndOfFile == /\ ~over /\ pos = Len(files[at].raw) + 1
             /\ LET all == Put(cur)
                    n == MinOf(Len(all), (Len(all) * files[at].num) \div files[at].den)
                IN used' = used \o SubSeq(all, 1, n)
             /\ cur' = <<>> /\ found' = <<>> /\ pos' = 1
             /\ IF at = Len(files) THEN over' = TRUE /\ UNCHANGED at ELSE at' = at + 1 /\ UNCHANGED over
             /\ UNCHANGED files
Next == Byte \/ EndOfFile
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Agrees == over => [i \in 1..Len(used) |-> <<used[i], 1>>] = Samples(files, <<>>)
NoEmpty == \A i \in 1..Len(used) : used[i] # <<>> /\ \A k \in 1..Len(used[i]) : used[i][k] # 0
Letters(s) == SelectSeq(s, LAMBDA x : x # 0)
\* Without a proportion nothing but the zero bytes is left out.
Everything == (over /\ \A i \in 1..Len(files) : files[i].num >= files[i].den) =>
                 Flat(used) = Flat([i \in 1..Len(files) |-> Letters(files[i].raw)])
Halts == <>over
Emit == over => PrintT(ToJson([files |-> files, used |-> used]))
=============================================================================
