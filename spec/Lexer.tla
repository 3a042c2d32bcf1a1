-------------------------------- MODULE Lexer --------------------------------
(***************************************************************************)
(* From the characters of a text (its UTF-8 bytes) to its tokens: a        *)
(* machine that reads one byte per step.  Whitespace, comments and a byte  *)
(* order mark at the beginning leave no token.                             *)
(***************************************************************************)
EXTENDS Source

Chars == <<" ", "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/",
           "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", ":", ";", "<", "=", ">", "?",
           "@", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O",
           "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z", "[", "\\", "]", "^", "_",
           "`", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o",
           "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z", "{", "|", "}", "~">>
Char(x) == Chars[x - 31]
CharsOf(c) == FoldLeft(LAMBDA a, x : a \o Char(x), "", c)

IsSpace(x)  == x \in {9, 10, 13, 32}
IsLetter(x) == (x >= 65 /\ x <= 90) \/ (x >= 97 /\ x <= 122)
IsWord(x)   == IsLetter(x) \/ IsDigit(x) \/ x = 95
(* { } ( ) [ ] < > = ; , - + *)
Symbols == {123, 125, 40, 41, 91, 93, 60, 62, 61, 59, 44, 45, 43}

NewLexer == [m |-> "none", buf |-> <<>>, toks |-> <<>>, ok |-> TRUE, unclear |-> FALSE]

IsHexNumber(c) == Len(c) >= 2 /\ c[1] = 48 /\ c[2] \in {88, 120}
Number(c) == IF ~IsHexNumber(c) /\ \E i \in 1..Len(c) : c[i] \in {46, 69, 101} THEN FloatT(c) ELSE IntT(c)

LexEmit(s, tok) == [s EXCEPT !.m = "none", !.buf = <<>>, !.toks = Append(@, tok)]
LexMore(s, x) == [s EXCEPT !.buf = Append(@, x)]
LexTo(s, m) == [s EXCEPT !.m = m, !.buf = <<>>]
LexBad(s) == [s EXCEPT !.ok = FALSE]

(* Between tokens. *)
LexFresh(s, x) ==
  CASE IsSpace(x)    -> s
    [] IsLetter(x)   -> [s EXCEPT !.m = "word", !.buf = <<x>>]
    [] x = 95        -> [s EXCEPT !.m = "word", !.buf = <<x>>, !.unclear = TRUE]
    [] IsDigit(x)    -> [s EXCEPT !.m = "number", !.buf = <<x>>]
    [] x = 46        -> LexTo(s, "dot")
    [] x = 34        -> LexTo(s, "double")
    [] x = 39        -> LexTo(s, "single")
    [] x = 47        -> LexTo(s, "slash")
    [] x \in Symbols -> LexEmit(s, Sym(Char(x)))
    [] x \in {11, 12} -> [s EXCEPT !.unclear = TRUE]     \* other whitespace
    [] OTHER -> LexBad(s)

Quote(m) == IF m \in {"single", "single\\"} THEN 39 ELSE 34
InString(s, x) ==
  CASE x \in {0, 10} -> LexBad(s)
    [] s.m \in {"single\\", "double\\"} -> LexMore([s EXCEPT !.m = IF @ = "single\\" THEN "single" ELSE "double"], x)
    [] x = 92 -> LexMore([s EXCEPT !.m = @ \o "\\"], x)
    [] x = Quote(s.m) -> LexEmit(s, Tok("str", Char(x), s.buf))
    [] OTHER -> LexMore(s, x)

LexStep(s, x) ==
  IF ~s.ok THEN s
  ELSE
  CASE s.m = "none"   -> LexFresh(s, x)
    [] s.m = "word"   -> IF IsWord(x) THEN LexMore(s, x) ELSE LexFresh(LexEmit(s, Id(CharsOf(s.buf))), x)
    [] s.m = "number" -> IF IsWord(x) \/ x = 46 THEN LexMore(s, x)
                         ELSE IF x \in {43, 45} /\ s.buf[Len(s.buf)] \in {69, 101} /\ ~IsHexNumber(s.buf) THEN LexMore(s, x)
                         ELSE LexFresh(LexEmit(s, Number(s.buf)), x)
    [] s.m = "dot"    -> IF IsDigit(x) THEN [s EXCEPT !.m = "number", !.buf = <<46, x>>]
                         ELSE LexFresh(LexEmit(s, Sym(".")), x)
    [] s.m \in {"single", "double", "single\\", "double\\"} -> InString(s, x)
    [] s.m = "slash"  -> IF x = 47 THEN LexTo(s, "line") ELSE IF x = 42 THEN LexTo(s, "block") ELSE LexBad(s)
    [] s.m = "line"   -> IF x = 10 THEN LexTo(s, "none") ELSE s
    [] s.m = "block"  -> IF x = 42 THEN LexTo(s, "star") ELSE s
    [] s.m = "star"   -> IF x = 47 THEN LexTo(s, "none") ELSE IF x = 42 THEN s ELSE LexTo(s, "block")

(* A line end ends every token that can end there. *)
LexFinish(s) == CASE s.m \in {"none", "line"} -> s
               [] s.m \in {"word", "number", "dot"} -> LexStep(s, 10)
               [] OTHER -> LexBad(s)
Bom == <<239, 187, 191>>
Lex(c) == LexFinish(FoldLeft(LexStep, NewLexer, IF Len(c) >= 3 /\ SubSeq(c, 1, 3) = Bom THEN SubSeq(c, 4, Len(c)) ELSE c))

(* The state after reading texts: like Read, with characters. *)
RECURSIVE ReadTextsFrom(_, _, _)
ReadTextsFrom(st, texts, i) ==
  LET x == Lex(texts[i])
      s == FeedAll(st, x.toks)
      t == IF ~x.ok THEN No(s) ELSE IF x.unclear THEN Unclear(s) ELSE s
  IN  IF i = Len(texts) \/ ~t.ok THEN t ELSE ReadTextsFrom(NextFile(t), texts, i + 1)
ReadTexts(texts) == ReadTextsFrom(NewState, texts, 1)
=============================================================================
