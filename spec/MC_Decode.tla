----------------------------- MODULE MC_Decode ------------------------------
(* Every short sequence of ids.  MC_PART "ids": a tokenizer whose tokens    *)
(* are pieces of characters, empty, or whole, with two special tokens, and  *)
(* ids out of range.  MC_PART "utf8": every short byte string over one      *)
(* representative of each class that UTF-8 distinguishes.                   *)
EXTENDS Tokenizer, TLC

VARIABLE ids

Bytes1 == IOEnv.MC_PART = "utf8"
Deep == IOEnv.MC_DEEP = "1"
Classes == <<65, 128, 143, 144, 159, 160, 191, 193, 194, 223, 224, 225, 237, 239, 240, 241, 244, 245>>
Pieces == << <<195>>, <<169>>, <<226, 130>>, <<172>>, <<65>>, <<>>, <<240, 159>>, <<152, 128, 195>> >>
Vocab == [i \in 1..Len(IF Bytes1 THEN Classes ELSE Pieces) |->
             [v |-> IF Bytes1 THEN <<Classes[i]>> ELSE Pieces[i], s |-> -1, k |-> FALSE]]
Sp == IF Bytes1 THEN <<>> ELSE << <<60>>, <<195, 169>> >>
T == MakeTok(Vocab, <<>>, Sp)
Universe == IF Bytes1 THEN 0..(BaseSize(T) - 1) ELSE 0..Size(T) \cup {1000000000}
Depth == IF Bytes1 THEN IF Deep THEN 4 ELSE 3 ELSE IF Deep THEN 5 ELSE 4

Init == ids = <<>>
Next == Len(ids) < Depth /\ \E i \in Universe : ids' = Append(ids, i)
Spec == Init /\ [][Next]_ids

r(inc) == DecodeOf(T, ids, inc)
InRange == \A i \in 1..Len(ids) : ids[i] < Size(T)
Plain == \A i \in 1..Len(ids) : ids[i] < BaseSize(T)
raw == Spell(T.m, ids)
DecodeProps ==
    /\ \A inc \in BOOLEAN :
         /\ r(inc).k = IF InRange THEN "text" ELSE "err"
         /\ InRange => ValidUtf8(r(inc).text)
    /\ Plain => /\ r(TRUE) = r(FALSE) /\ r(TRUE) = ModelDecodeOf(T.m, ids)
                /\ ValidUtf8(raw) <=> r(TRUE).text = raw
                \* only ill-formed parts are replaced
                /\ Len(r(TRUE).text) <= 3 * Len(raw)
                /\ LossyUtf8(r(TRUE).text) = r(TRUE).text
                /\ EncodeChars(CodePoints(raw)) = r(TRUE).text
    \* a special token separates
    /\ InRange => \A k \in 1..Len(ids) : ids[k] >= BaseSize(T) =>
         \A inc \in BOOLEAN :
            r(inc).text = DecodeOf(T, SubSeq(ids, 1, k), inc).text \o DecodeOf(T, SubSeq(ids, k + 1, Len(ids)), inc).text
    /\ ~Plain => ModelDecodeOf(T.m, ids).k = "err"
Emit == PrintT(ToJson([ids |-> ids, with |-> r(TRUE), without |-> r(FALSE), m |-> ModelDecodeOf(T.m, ids)]))
=============================================================================
