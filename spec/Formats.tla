------------------------------ MODULE Formats -------------------------------
(* Which written definitions may be read, and what they mean.               *)
(* A JSON value is a record: [k |-> "str", x |-> bytes, a |-> its ASCII     *)
(* form], "num" (x: the number as the trace projects scores), "bool",       *)
(* "null", "arr" (x: values), "obj" (x: <<key, value>> pairs), or "raw" for *)
(* text that is not JSON at all.                                            *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

IsStr(v) == v.k = "str"
Fields(o) == {o.x[i][1] : i \in 1..Len(o.x)}
Get(o, f) == o.x[CHOOSE i \in 1..Len(o.x) : o.x[i][1] = f][2]

-----------------------------------------------------------------------------
(* Base64, standard alphabet, without padding, canonical.                   *)
B64Val(c) == CASE c \in 65..90 -> c - 65
               [] c \in 97..122 -> c - 71
               [] c \in 48..57 -> c + 4
               [] c = 43 -> 62
               [] c = 47 -> 63
               [] OTHER -> -1
B64Valid(s) ==
    /\ \A i \in 1..Len(s) : B64Val(s[i]) >= 0
    /\ Len(s) % 4 # 1
    /\ Len(s) % 4 = 2 => B64Val(s[Len(s)]) % 16 = 0
    /\ Len(s) % 4 = 3 => B64Val(s[Len(s)]) % 4 = 0
B64Decode(s) ==
    LET v(i) == B64Val(s[i])
        byte(k) == \* k-th output byte (from 0)
            LET q == (k \div 3) * 4 + 1
            IN CASE k % 3 = 0 -> v(q) * 4 + v(q + 1) \div 16
                 [] k % 3 = 1 -> (v(q + 1) % 16) * 16 + v(q + 2) \div 4
                 [] OTHER -> (v(q + 2) % 4) * 64 + v(q + 3)
    IN [k \in 1..((Len(s) * 3) \div 4) |-> byte(k - 1)]

-----------------------------------------------------------------------------
TokenOK(v) ==
    /\ v.k = "obj"
    /\ Fields(v) \subseteq {"value", "score", "encoded", "keep"}
    /\ {"value", "score"} \subseteq Fields(v)
    /\ IsStr(Get(v, "value"))
    /\ Get(v, "score").k = "num"
    /\ "encoded" \in Fields(v) => Get(v, "encoded").k = "bool"
    /\ "keep" \in Fields(v) => Get(v, "keep").k = "bool"
    /\ ("encoded" \in Fields(v) /\ Get(v, "encoded").x) => B64Valid(Get(v, "value").x)
TokenMeant(v) ==
    LET raw == Get(v, "value").x
    IN [v |-> IF "encoded" \in Fields(v) /\ Get(v, "encoded").x THEN B64Decode(raw) ELSE raw,
        s |-> Get(v, "score").x,
        k |-> "keep" \in Fields(v) /\ Get(v, "keep").x]

StepOK(v) ==
    /\ v.k = "obj"
    /\ "type" \in Fields(v) /\ IsStr(Get(v, "type"))
    /\ \/ Get(v, "type").a = "crlf"
       \/ /\ Get(v, "type").a = "unicode"
          /\ "form" \in Fields(v) /\ IsStr(Get(v, "form"))
          /\ Get(v, "form").a \in {"nfc", "nfd", "nfkc", "nfkd"}
StepMeant(v) == IF Get(v, "type").a = "crlf" THEN "crlf" ELSE Get(v, "form").a

ArrOf(v, P(_)) == v.k = "arr" /\ \A i \in 1..Len(v.x) : P(v.x[i])
MapArr(v, F(_)) == [i \in 1..Len(v.x) |-> F(v.x[i])]

Readable(doc) ==
    /\ doc.k = "obj"
    /\ Fields(doc) \subseteq {"version", "special_tokens", "processors", "vocab"}
    /\ "version" \in Fields(doc) /\ IsStr(Get(doc, "version")) /\ Get(doc, "version").a = "2.0"
    /\ "special_tokens" \in Fields(doc) => ArrOf(Get(doc, "special_tokens"), IsStr)
    /\ "processors" \in Fields(doc) => ArrOf(Get(doc, "processors"), StepOK)
    /\ "vocab" \in Fields(doc) => ArrOf(Get(doc, "vocab"), TokenOK)

Rejected == [ok |-> FALSE, vocab |-> <<>>, procs |-> <<>>, sp |-> <<>>]
Read(doc) ==
    IF ~Readable(doc) THEN Rejected
    ELSE LET part(f, F(_)) == IF f \in Fields(doc) THEN MapArr(Get(doc, f), F) ELSE <<>>
         IN [ok |-> TRUE, vocab |-> part("vocab", TokenMeant),
             procs |-> part("processors", StepMeant),
             sp |-> part("special_tokens", LAMBDA v : v.x)]

-----------------------------------------------------------------------------
(* The document a tokenizer is written as, for the model checker: reading   *)
(* it gives the tokenizer back.                                             *)
Str(x, a) == [k |-> "str", x |-> x, a |-> a]
Obj(fields) == [k |-> "obj", x |-> fields]
Arr(xs) == [k |-> "arr", x |-> xs]
B64Char(n) == CASE n < 26 -> n + 65 [] n < 52 -> n + 71 [] n < 62 -> n - 4 [] n = 62 -> 43 [] OTHER -> 47
B64Encode(b) ==
    LET at(i) == IF i <= Len(b) THEN b[i] ELSE 0
        n == (Len(b) * 8 + 5) \div 6
        sext(k) == LET q == (k \div 4) * 3 + 1
                   IN CASE k % 4 = 0 -> at(q) \div 4
                        [] k % 4 = 1 -> (at(q) % 4) * 16 + at(q + 1) \div 16
                        [] k % 4 = 2 -> (at(q + 1) % 16) * 4 + at(q + 2) \div 64
                        [] OTHER -> at(q + 2) % 64
    IN [k \in 1..n |-> B64Char(sext(k - 1))]
WriteToken(t, utf8) ==
    LET v == IF utf8 THEN <<<<"value", Str(t.v, "")>>, <<"score", [k |-> "num", x |-> t.s]>>>>
             ELSE <<<<"value", Str(B64Encode(t.v), "")>>, <<"score", [k |-> "num", x |-> t.s]>>,
                    <<"encoded", [k |-> "bool", x |-> TRUE]>>>>
    IN Obj(IF t.k THEN Append(v, <<"keep", [k |-> "bool", x |-> TRUE]>>) ELSE v)
WriteStep(p) == IF p = "crlf" THEN Obj(<<<<"type", Str(<<>>, "crlf")>>>>)
                ELSE Obj(<<<<"type", Str(<<>>, "unicode")>>, <<"form", Str(<<>>, p)>>>>)
=============================================================================
