------------------------------ MODULE Unicode -------------------------------
(* The four Unicode normalisation forms over sequences of code points, by   *)
(* the algorithm of UAX 15: full decomposition, canonical ordering, and     *)
(* (for NFC and NFKC) canonical composition.                                *)
EXTENDS Bytes, Json, IOUtils

UD == JsonDeserialize(IOEnv.SPEC_DIR \o "/unicode.json")

None == <<0, 0, <<>>, <<>>>>
Entry(c) ==
    LET p == c \div 64
    IN IF p >= Len(UD.index) \/ UD.index[p + 1] = 0 THEN None
       ELSE LET e == UD.pages[UD.index[p + 1]][(c % 64) + 1]
            IN IF e = <<>> THEN None ELSE e

CCC(c) == Entry(c)[1]

SBase == 44032  LBase == 4352  VBase == 4449  TBase == 4519
IsHangul(c) == c \in SBase..(SBase + 11171)
HangulDecomp(c) ==
    LET i == c - SBase
        l == LBase + i \div 588
        v == VBase + (i % 588) \div 28
        t == i % 28
    IN IF t = 0 THEN <<l, v>> ELSE <<l, v, TBase + t>>

RECURSIVE FullDecomp(_, _)
FullDecomp(c, compat) ==
    IF IsHangul(c) THEN HangulDecomp(c)
    ELSE LET e == Entry(c)
         IN IF e[2] = 0 \/ (e[2] = 2 /\ ~compat) THEN <<c>>
            ELSE Flat([k \in 1..Len(e[3]) |-> FullDecomp(e[3][k], compat)])

\* Insert c into s after the last character whose class does not exceed its
\* own, never moving past a starter.
Place(s, c) ==
    LET k == CCC(c)
    IN IF k = 0 \/ s = <<>> \/ CCC(s[Len(s)]) <= k THEN Append(s, c)
       ELSE LET stay == {j \in 1..Len(s) : CCC(s[j]) <= k}
                at == IF stay = {} THEN 0 ELSE Max(stay)
            IN SubSeq(s, 1, at) \o <<c>> \o SubSeq(s, at + 1, Len(s))

CanonicalOrder(cs) == FoldLeft(Place, <<>>, cs)

Decompose(cs, compat) ==
    CanonicalOrder(Flat([k \in 1..Len(cs) |-> FullDecomp(cs[k], compat)]))

\* The primary composite of a and b, or 0.
Composite(a, b) ==
    IF a \in LBase..(LBase + 18) /\ b \in VBase..(VBase + 20)
    THEN SBase + ((a - LBase) * 21 + (b - VBase)) * 28
    ELSE IF IsHangul(a) /\ (a - SBase) % 28 = 0 /\ b \in (TBase + 1)..(TBase + 27)
    THEN a + (b - TBase)
    ELSE LET ps == Entry(a)[4]
             hit == {k \in 1..Len(ps) : ps[k][1] = b}
         IN IF hit = {} THEN 0 ELSE ps[CHOOSE k \in hit : TRUE][2]

\* st.out is the composed text; st.at the index in it of the last starter
\* (0: none); a character is blocked from it if something between them has
\* the same or a higher class, or is a starter.
ComposeStep(st, c) ==
    LET n == Len(st.out)
        k == CCC(c)
        adjacent == st.at = n
        blocked == ~adjacent /\ (CCC(st.out[n]) = 0 \/ CCC(st.out[n]) >= k)
        p == IF st.at = 0 \/ blocked THEN 0 ELSE Composite(st.out[st.at], c)
    IN IF p # 0 THEN [out |-> [st.out EXCEPT ![st.at] = p], at |-> st.at]
       ELSE [out |-> Append(st.out, c), at |-> IF k = 0 THEN n + 1 ELSE st.at]

Compose(cs) == FoldLeft(ComposeStep, [out |-> <<>>, at |-> 0], cs).out

NF(form, cs) ==
    CASE form = "nfd" -> Decompose(cs, FALSE)
      [] form = "nfkd" -> Decompose(cs, TRUE)
      [] form = "nfc" -> Compose(Decompose(cs, FALSE))
      [] form = "nfkc" -> Compose(Decompose(cs, TRUE))

-----------------------------------------------------------------------------
(* The normalisation steps of a tokenizer, on UTF-8 bytes.                  *)

CR == 13
LF == 10
Crlf(bytes) ==
    FoldLeft(LAMBDA out, b : IF b = LF /\ out # <<>> /\ out[Len(out)] = CR
                             THEN [out EXCEPT ![Len(out)] = LF]
                             ELSE Append(out, b),
             <<>>, bytes)

IsAscii(bytes) == \A k \in 1..Len(bytes) : bytes[k] < 128

Step(p, bytes) ==
    IF p = "crlf" THEN Crlf(bytes)
    ELSE IF IsAscii(bytes) THEN bytes
    ELSE EncodeChars(NF(p, CodePoints(bytes)))

\* All steps, in the listed order.
Normalise(procs, bytes) == FoldLeft(LAMBDA x, p : Step(p, x), bytes, procs)

\* The same for long texts, piece by piece: nothing combines across the front
\* of an ASCII character, except that a line feed may end a line with the
\* carriage return before it.
Fronts(x) == SelectSeq([k \in 1..Len(x) |-> k - 1], LAMBDA i : i = 0 \/ (x[i + 1] < 128 /\ x[i + 1] # LF))
NormalisesTo(p, x, y) ==
    LET cuts == Append(Fronts(x), Len(x))
        step(pos, k) == IF pos < 0 THEN pos
                        ELSE LET part == Step(p, SubSeq(x, cuts[k] + 1, cuts[k + 1]))
                             IN IF MatchAt(y, pos, part) THEN pos + Len(part) ELSE -1
    IN FoldLeftDomain(step, 0, Tail(cuts)) = Len(y)
=============================================================================
