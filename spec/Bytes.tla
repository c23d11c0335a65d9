------------------------------- MODULE Bytes -------------------------------
(* Byte strings, represented as sequences over 0..255, and UTF-8.           *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt

\* Does tok occur in text right after the first i bytes?
MatchAt(text, i, tok) ==
    /\ i + Len(tok) <= Len(text)
    /\ \A k \in 1..Len(tok) : text[i + k] = tok[k]

Flat(ss) == FoldLeft(LAMBDA a, x : a \o x, <<>>, ss)

SumSeq(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)

Abs(x) == IF x < 0 THEN -x ELSE x

MinOf(a, b) == IF a <= b THEN a ELSE b
MaxOf(a, b) == IF a >= b THEN a ELSE b

-----------------------------------------------------------------------------
(* UTF-8 (Unicode table 3-7).  A decoder state is the sequence of bytes of  *)
(* the character read so far.                                               *)

Width(b) == CASE b < 128 -> 1
              [] b \in 194..223 -> 2
              [] b \in 224..239 -> 3
              [] b \in 240..244 -> 4
              [] OTHER -> 0

\* May byte b continue the incomplete character buf?
Continues(buf, b) ==
    IF Len(buf) = 1
    THEN CASE buf[1] = 224 -> b \in 160..191
           [] buf[1] = 237 -> b \in 128..159
           [] buf[1] = 240 -> b \in 144..191
           [] buf[1] = 244 -> b \in 128..143
           [] OTHER -> b \in 128..191
    ELSE b \in 128..191

Replacement == <<239, 191, 189>>      \* U+FFFD

\* The state after one more byte: chars already decided, and the pending one.
LossyStep(st, b) ==
    IF st.buf # <<>> /\ Continues(st.buf, b)
    THEN LET buf == Append(st.buf, b)
         IN IF Len(buf) = Width(buf[1])
            THEN [out |-> Append(st.out, buf), buf |-> <<>>]
            ELSE [out |-> st.out, buf |-> buf]
    ELSE LET out == IF st.buf = <<>> THEN st.out ELSE Append(st.out, Replacement)
         IN CASE Width(b) = 1 -> [out |-> Append(out, <<b>>), buf |-> <<>>]
              [] Width(b) = 0 -> [out |-> Append(out, Replacement), buf |-> <<>>]
              [] OTHER -> [out |-> out, buf |-> <<b>>]

\* The characters of a byte string, each as its bytes; every maximal
\* ill-formed part is one replacement character.
LossyChars(bytes) ==
    LET st == FoldLeft(LossyStep, [out |-> <<>>, buf |-> <<>>], bytes)
    IN IF st.buf = <<>> THEN st.out ELSE Append(st.out, Replacement)

ValidUtf8(bytes) ==
    LET step(st, b) ==
            IF ~st.ok THEN st
            ELSE IF st.buf # <<>>
            THEN IF Continues(st.buf, b)
                 THEN LET buf == Append(st.buf, b)
                      IN [ok |-> TRUE, buf |-> IF Len(buf) = Width(buf[1]) THEN <<>> ELSE buf]
                 ELSE [ok |-> FALSE, buf |-> <<>>]
            ELSE CASE Width(b) = 1 -> st
                   [] Width(b) = 0 -> [ok |-> FALSE, buf |-> <<>>]
                   [] OTHER -> [ok |-> TRUE, buf |-> <<b>>]
        end == FoldLeft(step, [ok |-> TRUE, buf |-> <<>>], bytes)
    IN end.ok /\ end.buf = <<>>

LossyUtf8(bytes) == IF ValidUtf8(bytes) THEN bytes ELSE Flat(LossyChars(bytes))

\* Code point of one well-formed character.
CodePoint(c) ==
    CASE Len(c) = 1 -> c[1]
      [] Len(c) = 2 -> (c[1] - 192) * 64 + (c[2] - 128)
      [] Len(c) = 3 -> (c[1] - 224) * 4096 + (c[2] - 128) * 64 + (c[3] - 128)
      [] OTHER -> (c[1] - 240) * 262144 + (c[2] - 128) * 4096 + (c[3] - 128) * 64 + (c[4] - 128)

CodePoints(bytes) == LET cs == LossyChars(bytes) IN [i \in 1..Len(cs) |-> CodePoint(cs[i])]

EncodeChar(c) ==
    CASE c < 128 -> <<c>>
      [] c < 2048 -> <<192 + c \div 64, 128 + (c % 64)>>
      [] c < 65536 -> <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
      [] OTHER -> <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>

EncodeChars(cs) == Flat([i \in 1..Len(cs) |-> EncodeChar(cs[i])])

\* Does a character start after the first i bytes of (valid) text, or does
\* the text end there?
CharBoundary(text, i) == i = Len(text) \/ text[i + 1] \notin 128..191
=============================================================================
