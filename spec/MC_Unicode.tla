----------------------------- MODULE MC_Unicode -----------------------------
(* Every short sequence over characters chosen for how they normalise:      *)
(* starters, marks of four classes, a singleton, compositions, an excluded  *)
(* composition, compatibility characters, Hangul, a mark that splits.       *)
(* MC_PART "forms": the four forms.  "steps": every list of up to three     *)
(* steps on every text of up to two characters of a smaller set.            *)
EXTENDS Tokenizer, TLC

VARIABLES cs, procs
vars == <<cs, procs>>

Deep == IOEnv.MC_DEEP = "1"
Steps == IOEnv.MC_PART = "steps"
Chars == IF Steps THEN {13, 10, 233, 769, 8491, 64257}
         ELSE {97, 101, 769, 803, 1619, 233, 8491, 64257, 836, 2392, 4352, 4449, 4520, 44032, 7835, 12441}
              \cup (IF Deep THEN {119128, 12363, 8486, 65438, 960, 3953, 6071, 9312} ELSE {})
Names == {"crlf", "nfc", "nfd", "nfkc", "nfkd"}
Forms == {"nfc", "nfd", "nfkc", "nfkd"}
Long == IF Steps THEN 3 ELSE IF Deep THEN 4 ELSE 3

Init == cs = <<>> /\ procs = <<>>
Next == \/ /\ Len(cs) < Long /\ procs = <<>>
           /\ \E c \in Chars : cs' = Append(cs, c)
           /\ UNCHANGED procs
        \/ /\ Steps /\ Len(procs) < (IF Len(cs) < 3 THEN 3 ELSE 2)
           /\ \E p \in Names : procs' = Append(procs, p)
           /\ UNCHANGED cs
Spec == Init /\ [][Next]_vars

x == EncodeChars(cs)
Sorted(s) == \A i \in 2..Len(s) : CCC(s[i]) = 0 \/ CCC(s[i - 1]) <= CCC(s[i])
FormProps ==
    IF Steps
    THEN LET y == Normalise(procs, x)
         IN /\ ValidUtf8(y)
            /\ procs # <<>> => Normalise(Append(procs, procs[Len(procs)]), x) = IF procs[Len(procs)] = "crlf"
                                                               THEN Step("crlf", y) ELSE y
            /\ procs # <<>> => y = Normalise(Tail(procs), Step(Head(procs), x))
            /\ \A p \in Names : NormalisesTo(p, x, Step(p, x))
    ELSE LET c == NF("nfc", cs) d == NF("nfd", cs) kc == NF("nfkc", cs) kd == NF("nfkd", cs)
         IN /\ \A f \in Forms : NF(f, NF(f, cs)) = NF(f, cs)
            /\ NF("nfc", d) = c /\ NF("nfd", c) = d
            /\ NF("nfkc", c) = kc /\ NF("nfkc", d) = kc /\ NF("nfkc", kd) = kc /\ NF("nfc", kd) = kc
            /\ NF("nfkd", c) = kd /\ NF("nfkd", d) = kd /\ NF("nfkd", kc) = kd /\ NF("nfd", kc) = kd
            /\ Sorted(d) /\ Sorted(kd)
            \* decomposing loses no class: the multiset of marks is preserved
            /\ CodePoints(x) = cs
            /\ \A f \in Forms : NormalisesTo(f, x, Step(f, x))
Emit == PrintT(ToJson(IF Steps THEN [x |-> x, procs |-> procs, y |-> Normalise(procs, x)]
                      ELSE [x |-> x, nfc |-> Step("nfc", x), nfd |-> Step("nfd", x),
                            nfkc |-> Step("nfkc", x), nfkd |-> Step("nfkd", x)]))
=============================================================================
