------------------------------ MODULE Patterns ------------------------------
(* The named patterns, from their names and published definitions.          *)
EXTENDS Regex

Lower == <<97, 122>>
Upper == <<65, 90>>
Digit == Chr(<<<<48, 57>>>>)
LowerC == Chr(<<Lower>>)
UpperC == Chr(<<Upper>>)
Letter == Chr(<<Upper, Lower>>)
Punct == Chr(<<<<33, 47>>, <<58, 64>>, <<91, 96>>, <<123, 126>>>>)
Space == Lit(32)
Tab == Lit(9)
Newline == Lit(10)
Dot == Lit(46)
Blank == Chr(<<<<9, 13>>, <<32, 32>>, <<133, 133>>, <<160, 160>>, <<5760, 5760>>, <<8192, 8202>>,
              <<8232, 8233>>, <<8239, 8239>>, <<8287, 8287>>, <<12288, 12288>>>>)
Quote == Chr(<<<<34, 34>>, <<39, 39>>>>)
Number3 == Rep(Digit, 1, 3)
Capitalised == Cat(<<UpperC, Plus(LowerC)>>)

Operators == <<<<43>>, <<45>>, <<42>>, <<47>>, <<37>>, <<38>>, <<124>>, <<94>>, <<33>>, <<126>>, <<38,
    38>>, <<124, 124>>, <<61, 61>>, <<33, 61>>, <<33, 61, 61>>, <<60>>, <<62>>, <<60, 61>>,
    <<62, 61>>, <<60, 60>>, <<62, 62>>, <<62, 62, 62>>, <<43, 43>>, <<45, 45>>, <<43, 61>>,
    <<45, 61>>, <<42, 61>>, <<47, 61>>, <<37, 61>>, <<38, 61>>, <<124, 61>>, <<94, 61>>, <<61,
    62>>, <<45, 62>>, <<46>>, <<46, 46, 46>>, <<63>>, <<61>>, <<58, 61>>, <<91, 93>>, <<40,
    41>>>>

Named(n) ==
    CASE n = "any-char" -> NotChr(<<<<10, 10>>>>)
      [] n = "lowercase-word" -> Plus(LowerC)
      [] n = "space-lowercase-word" -> Cat(<<Opt(Space), Plus(LowerC)>>)
      [] n = "uppercase-word" -> Plus(UpperC)
      [] n = "space-uppercase-word" -> Cat(<<Opt(Space), Plus(UpperC)>>)
      [] n = "capitalized-word" -> Capitalised
      [] n = "space-capitalized-word" -> Cat(<<Opt(Space), Capitalised>>)
      [] n = "word" -> Plus(Letter)
      [] n = "space-word" -> Cat(<<Opt(Space), Plus(Letter)>>)
      [] n = "space-english-word" -> Cat(<<Opt(Space), Plus(Letter), Lit(39), Rep(Letter, 1, 2)>>)
      [] n = "space-french-word" -> Cat(<<Opt(Space), Plus(Chr(<<Upper, Lower, <<192, 255>>>>))>>)
      [] n = "chinese-word" -> Plus(Chr(<<<<13312, 19903>>, <<19968, 40959>>>>))
      [] n = "english-contraction" -> Cat(<<Lit(39), Alt(<<Word(<<114, 101>>), Word(<<118, 101>>), Word(<<115>>), Word(<<100>>), Word(<<108, 108>>), Word(<<116>>), Word(<<109>>)>>)>>)
      [] n = "space-digit" -> Cat(<<Space, Digit>>)
      [] n = "short-number" -> Number3
      [] n = "space-short-number" -> Cat(<<Space, Number3>>)
      [] n = "short-decimal-number" -> Cat(<<Number3, Dot, Digit>>)
      [] n = "space-short-decimal-number" -> Cat(<<Space, Number3, Dot, Digit>>)
      [] n = "word-wrapped-in-brackets" -> Cat(<<Lit(91), Plus(Letter), Lit(93)>>)
      [] n = "short-number-wrapped-in-brackets" -> Cat(<<Lit(91), Number3, Lit(93)>>)
      [] n = "word-wrapped-in-quotes" -> Cat(<<Quote, Plus(Letter), Quote>>)
      [] n = "word-wrapped-in-angle-brackets" -> Cat(<<Lit(60), Plus(Letter), Lit(62)>>)
      [] n = "punct-word" -> Cat(<<Punct, Plus(Letter)>>)
      [] n = "space-punct-word" -> Cat(<<Space, Punct, Plus(Letter)>>)
      [] n = "word-punct" -> Cat(<<Letter, Punct>>)
      [] n = "dot-short-number" -> Cat(<<Dot, Number3>>)
      [] n = "indent" -> Alt(<<Plus(Space), Plus(Tab)>>)
      [] n = "newline-indent" -> Alt(<<Cat(<<Newline, Plus(Space)>>), Cat(<<Newline, Plus(Tab)>>)>>)
      [] n = "whitespace" -> Plus(Blank)
      [] n = "space-punct-space" -> Cat(<<Opt(Space), Punct, Opt(Space)>>)
      [] n = "repeated-punct" -> Plus(Punct)
      [] n = "few-repeated-punct" -> Rep(Punct, 1, 4)
      [] n = "repeated-punct-space" -> Plus(Alt(<<Space, Punct>>))
      [] n = "few-repeated-punct-space" -> Rep(Alt(<<Space, Punct>>), 1, 4)
      [] n = "punct-newline" -> Cat(<<Plus(Punct), Newline>>)
      [] n = "repeated-punct-newline-indent" -> Cat(<<Plus(Punct), Newline, Plus(Alt(<<Space, Tab>>))>>)
      [] n = "space-operator-space" -> Cat(<<Opt(Space), Alt([i \in 1..Len(Operators) |-> Word(Operators[i])]), Opt(Space)>>)

Names == {"any-char",
    "lowercase-word",
    "space-lowercase-word",
    "uppercase-word",
    "space-uppercase-word",
    "capitalized-word",
    "space-capitalized-word",
    "word",
    "space-word",
    "space-english-word",
    "space-french-word",
    "chinese-word",
    "english-contraction",
    "space-digit",
    "short-number",
    "space-short-number",
    "short-decimal-number",
    "space-short-decimal-number",
    "word-wrapped-in-brackets",
    "short-number-wrapped-in-brackets",
    "word-wrapped-in-quotes",
    "word-wrapped-in-angle-brackets",
    "punct-word",
    "space-punct-word",
    "word-punct",
    "dot-short-number",
    "indent",
    "newline-indent",
    "whitespace",
    "space-punct-space",
    "repeated-punct",
    "few-repeated-punct",
    "repeated-punct-space",
    "few-repeated-punct-space",
    "punct-newline",
    "repeated-punct-newline-indent",
    "space-operator-space"}

\* A pattern given by name, or written out.
Pattern(p) == IF "name" \in DOMAIN p THEN Named(p.name) ELSE p.ast
=============================================================================
