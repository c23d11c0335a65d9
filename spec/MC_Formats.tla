----------------------------- MODULE MC_Formats -----------------------------
(* A written definition with everything that can be done wrong at a single  *)
(* place of it (twice, in pairs, when deep): what must be refused, and what *)
(* the rest means.  Writing and reading back is the identity, and reading   *)
(* never makes up what no definition contains.                              *)
EXTENDS Bytes, Formats, Json, IOUtils, TLC

VARIABLES deal, doc
vars == <<deal, doc>>

Deep == IOEnv.MC_DEEP = "1"
S(x, a) == Str(x, a)
Null == [k |-> "null", x |-> 0]
Num(n) == [k |-> "num", x |-> n]
Bool(b) == [k |-> "bool", x |-> b]
SA == S(<<97>>, "a")

\* One of everything that may be found in a definition.
Base == Obj(<<
    <<"version", S(<<50, 46, 48>>, "2.0")>>,
    <<"special_tokens", Arr(<<S(<<60, 115, 62>>, "<s>"), S(<<>>, "")>>)>>,
    <<"processors", Arr(<<Obj(<<<<"type", S(<<99, 114, 108, 102>>, "crlf")>>>>),
                          Obj(<<<<"type", S(<<117, 110, 105, 99, 111, 100, 101>>, "unicode")>>, <<"form", S(<<110, 102, 99>>, "nfc")>>>>)>>)>>,
    <<"vocab", Arr(<<Obj(<<<<"value", SA>>, <<"score", Num(-4)>>, <<"keep", Bool(TRUE)>>>>),
                     Obj(<<<<"value", S(<<81, 85, 74>>, "QUJ")>>, <<"score", Num(-9)>>, <<"encoded", Bool(FALSE)>>>>),
                     Obj(<<<<"value", S(<<54, 89, 65>>, "6YA")>>, <<"encoded", Bool(TRUE)>>, <<"score", Num(0)>>>>)>>)>>>>)
Bare == Obj(<<<<"version", S(<<50, 46, 48>>, "2.0")>>>>)

\* What a value may be replaced by.
Others == <<Null, Num(2), Bool(TRUE), Bool(FALSE), SA, S(<<>>, ""), Arr(<<>>), Arr(<<SA>>), Obj(<<>>),
            S(<<50, 46, 48>>, "2.0"), S(<<49, 46, 48>>, "1.0"), S(<<50>>, "2"), S(<<50, 46, 48, 32>>, "2.0 "),
            S(<<78, 70, 67>>, "NFC"), S(<<110, 102, 107, 100>>, "nfkd"), S(<<99, 114, 108, 102>>, "crlf"), S(<<117, 110, 105, 99, 111, 100, 101>>, "unicode"),
            S(<<81>>, "Q"), S(<<81, 81>>, "QQ"), S(<<81, 82>>, "QR"), S(<<81, 81, 61, 61>>, "QQ=="), S(<<81, 85, 74>>, "QUJ"), S(<<81, 85, 73>>, "QUI"),
            S(<<45, 95>>, "-_"), S(<<43, 47, 43, 47>>, "+/+/"), S(<<195, 169>>, "?"),
            Obj(<<<<"value", SA>>, <<"score", Num(1)>>>>), Obj(<<<<"type", S(<<99, 114, 108, 102>>, "crlf")>>>>)>>
Names == <<"Version", "extra", "vocabulary", "encode", "type", "value", "">>

\* Everything a single change makes of v, as a sequence.
RECURSIVE Changed(_), Within(_)
Changed(v) == Within(v) \o Others
Within(v) ==
    IF v.k = "arr"
    THEN Flat([i \in 1..Len(v.x) |-> LET c == Changed(v.x[i]) IN [j \in 1..Len(c) |-> [v EXCEPT !.x[i] = c[j]]]])
         \o [i \in 1..Len(v.x) |-> [v EXCEPT !.x = RemoveAt(@, i)]]
         \o [i \in 1..Len(v.x) |-> [v EXCEPT !.x = InsertAt(@, i, v.x[i])]]
    ELSE IF v.k = "obj"
    THEN Flat([i \in 1..Len(v.x) |-> LET c == Changed(v.x[i][2]) IN [j \in 1..Len(c) |-> [v EXCEPT !.x[i][2] = c[j]]]])
         \o [i \in 1..Len(v.x) |-> [v EXCEPT !.x = RemoveAt(@, i)]]
         \o LET fresh == SelectSeq(Names, LAMBDA n : n \notin Fields(v))
            IN [i \in 1..Len(fresh) |-> [v EXCEPT !.x = Append(@, <<fresh[i], Null>>)]]
               \o Flat([i \in 1..Len(v.x) |-> [j \in 1..Len(fresh) |-> [v EXCEPT !.x[i][1] = fresh[j]]]])
         \o [i \in 1..(Len(v.x) - 1) |-> [v EXCEPT !.x = InsertAt(RemoveAt(@, i + 1), 1, v.x[i + 1])]]
    ELSE <<>>

Once == <<Base, Bare>> \o Changed(Base) \o Changed(Bare)

Groups == 256
Init == deal = 0 /\ doc = Null
Deal == deal = 0 /\ deal' \in 1..Groups /\ UNCHANGED doc
Pick == /\ deal \in 1..Groups
        /\ \E i \in {k \in 1..Len(Once) : k % Groups = deal - 1} : doc' = Once[i]
        /\ deal' = Groups + 1
\* A second change, on top of changes within the entries and steps.
Again == /\ Deep /\ deal = Groups + 1 /\ Readable(doc)
         /\ LET more == Within(doc) IN \E i \in 1..Len(more) : doc' = more[i]
         /\ deal' = Groups + 2
Next == Deal \/ Pick \/ Again
Spec == Init /\ [][Next]_vars

Made == deal > Groups
Meant == Read(doc)
\* What was written is read: the definition of what is read means the same.
Definition(r) == Obj(<< <<"version", S(<<50, 46, 48>>, "2.0")>>,
                        <<"special_tokens", Arr([i \in 1..Len(r.sp) |-> S(r.sp[i], "?")])>>,
                        <<"processors", Arr([i \in 1..Len(r.procs) |-> WriteStep(r.procs[i])])>>,
                        <<"vocab", Arr([i \in 1..Len(r.vocab) |-> WriteToken(r.vocab[i], FALSE)])>> >>)
Stable == (Made /\ Meant.ok) => Read(Definition(Meant)) = Meant
\* No entry is accepted whose fields are not those of an entry, and
\* everything listed is there.
Faithful == (Made /\ Meant.ok) =>
    /\ doc.k = "obj" /\ Fields(doc) \subseteq {"version", "special_tokens", "processors", "vocab"}
    /\ \A f \in {"special_tokens", "processors", "vocab"} :
          LET n == IF f \in Fields(doc) THEN Len(Get(doc, f).x) ELSE 0
          IN n = Len(CASE f = "vocab" -> Meant.vocab [] f = "processors" -> Meant.procs [] OTHER -> Meant.sp)
Refused == (Made /\ doc.k # "obj") => ~Meant.ok
Emit == Made => PrintT(ToJson([d |-> doc, ok |-> Meant.ok, vocab |-> Meant.vocab, procs |-> Meant.procs, sp |-> Meant.sp]))
=============================================================================
