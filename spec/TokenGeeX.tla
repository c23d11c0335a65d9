----------------------------- MODULE TokenGeeX ------------------------------
(* The state machine: tokenizers in named slots, and documents on disk.     *)
(* Every call of the library that changes anything is one action; calls     *)
(* that only observe are checked against the operators of Tokenizer in the  *)
(* state they are made in.                                                  *)
EXTENDS Tokenizer

VARIABLES toks,     \* slot -> tokenizer
          docs      \* name -> document
lib == <<toks, docs>>

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

LibInit == toks = <<>> /\ docs = <<>>

New(t, vocab, procs, sp) ==
    /\ toks' = Put(toks, t, MakeTok(vocab, procs, sp))
    /\ UNCHANGED docs
AddSpecial(t, new) ==
    /\ t \in DOMAIN toks
    /\ toks' = [toks EXCEPT ![t] = WithSpecials(@, new)]
    /\ UNCHANGED docs
AddBase(t, new) ==
    /\ t \in DOMAIN toks
    /\ toks' = [toks EXCEPT ![t] = WithBase(@, new)]
    /\ UNCHANGED docs
Clone(t, from) ==
    /\ from \in DOMAIN toks
    /\ toks' = Put(toks, t, toks[from])
    /\ UNCHANGED docs
Save(t, d) ==
    /\ t \in DOMAIN toks
    /\ docs' = Put(docs, d, DocOf(toks[t]))
    /\ UNCHANGED toks
Load(t, d) ==
    /\ d \in DOMAIN docs
    /\ toks' = Put(toks, t, TokOf(docs[d]))
    /\ UNCHANGED docs
Discard(t) ==
    /\ toks' = [x \in DOMAIN toks \ {t} |-> toks[x]]
    /\ UNCHANGED docs

-----------------------------------------------------------------------------
(* Properties of the design.                                                *)

\* P05: ids and tokens are a coherent mapping.
Coherent(t) ==
    /\ Size(t) = BaseSize(t) + SpecialSize(t)
    /\ \A id \in 0..(Size(t) + 1) :
          /\ IsBase(t, id) <=> id < BaseSize(t)
          /\ IsSpecial(t, id) <=> (id >= BaseSize(t) /\ id < Size(t))
          /\ (TokenOf(t, id) = <<>>) <=> id >= Size(t)
    /\ \A id \in 0..(BaseSize(t) - 1) :
          LET back == TokenId(t, TokenOf(t, id)[1])
          IN /\ back # <<>> /\ IsBase(t, back[1])
             /\ back[1] >= id
             /\ TokenOf(t, back[1]) = TokenOf(t, id)
             /\ (back[1] # id => \E j \in (id + 1)..(BaseSize(t) - 1) : t.m.vocab[j + 1].v = t.m.vocab[id + 1].v)
    /\ \A id \in BaseSize(t)..(Size(t) - 1) :
          /\ SpecialId(t, SpecialToken(t, id)[1]) = <<id>>
          /\ BaseId(t, TokenOf(t, id)[1]) = <<>> => TokenId(t, TokenOf(t, id)[1]) = <<id>>
    /\ \A i, j \in 1..SpecialSize(t) : t.sp[i] = t.sp[j] => i = j

\* P05, as an action property: how one tokenizer may change.
Grows(old, new) ==
    /\ IsPrefix([i \in 1..BaseSize(old) |-> old.m.vocab[i]], new.m.vocab)
    /\ IsPrefix(old.sp, new.sp)
    /\ new.procs = old.procs
    /\ (BaseSize(new) = BaseSize(old) \/ SpecialSize(new) = SpecialSize(old))

\* P06: what was written is what is read.
Preserved(t) ==
    LET u == TokOf(DocOf(t))
    IN u.m.vocab = t.m.vocab /\ u.procs = t.procs /\ u.sp = t.sp /\ DocOf(u) = DocOf(t)

CoherentInv == \A s \in DOMAIN toks : Coherent(toks[s])
PreservedInv == \A s \in DOMAIN toks : Preserved(toks[s])
=============================================================================
