------------------------------ MODULE MCEdits ------------------------------
(***************************************************************************)
(* The sample files with one edit of whole tokens (constant Mode):         *)
(*   blocks  a run of tokens is left out, said twice or exchanged with     *)
(*           its neighbour                                                 *)
(*   tokens  a token stands where none did, or is another one              *)
(*   moves   a run of tokens stands somewhere else                         *)
(* What is left of a construct, or too much of it, is as the grammar says; *)
(* every text is printed for the real parser.                              *)
(***************************************************************************)
EXTENDS Meaning, Json

CONSTANTS Mode, Bound, Emit

Samples == ndJsonDeserialize("samples.ndjson")
Toks == [k \in 1..Len(Samples) |-> Lex(FoldLeft(LAMBDA a, w : a \o w \o <<32>>, <<>>, Samples[k].words)).toks]
Vocabulary == {Id(s) : s \in {"message", "enum", "service", "rpc", "returns", "stream", "oneof", "option", "reserved", "to", "max",
                              "repeated", "optional", "import", "public", "weak", "package", "syntax", "int32", "true", "inf", "A", "x", "map"}}
              \cup {Sym(s) : s \in {";", "{", "}", "(", ")", "[", "]", "<", ">", "=", ",", ".", "-", "+"}}
              \cup {IntT(<<49>>), IntT(<<48, 120, 50>>), FloatT(<<49, 46, 53>>), StrT(<<120>>), StrT(<<92, 110>>)}

VARIABLES k, i, j, e, x
vars == <<k, i, j, e, x>>
T == Toks[k]
NoTok == Sym(";")
Ends == i..(IF i + Bound - 1 < Len(T) THEN i + Bound - 1 ELSE Len(T))
Init == k \in 1..Len(Samples) /\ i \in 1..Len(Toks[k]) /\ j = i /\ e = "none" /\ x = NoTok
Next ==
  /\ e = "none" /\ UNCHANGED <<k, i>>
  /\ CASE Mode = "blocks" -> e' \in {"drop", "twice", "swap"} /\ j' \in Ends /\ x' = NoTok
       [] Mode = "tokens" -> e' \in {"insert", "replace"} /\ x' \in Vocabulary /\ j' = i
       [] Mode = "moves"  -> e' \in {"move", "copy"} /\ j' \in Ends /\ x' \in {[NoTok EXCEPT !.s = ToString(p)] : p \in 0..Len(T)}
Spec == Init /\ [][Next]_vars

Upto(n) == SubSeq(T, 1, n)
From(n) == SubSeq(T, n, Len(T))
Mid == SubSeq(T, i, j)
To == CHOOSE p \in 0..Len(T) : ToString(p) = x.s
Now ==
  CASE e = "none"    -> T
    [] e = "drop"    -> Upto(i - 1) \o From(j + 1)
    [] e = "twice"   -> Upto(j) \o Mid \o From(j + 1)
    [] e = "swap"    -> LET h == i + (j - i) \div 2 IN Upto(i - 1) \o SubSeq(T, h + 1, j) \o SubSeq(T, i, h) \o From(j + 1)
    [] e = "insert"  -> Upto(i - 1) \o <<x>> \o From(i)
    [] e = "replace" -> Upto(i - 1) \o <<x>> \o From(i + 1)
    [] e = "copy"    -> Upto(To) \o Mid \o From(To + 1)
    [] e = "move"    -> IF To < i THEN Upto(To) \o Mid \o SubSeq(T, To + 1, i - 1) \o From(j + 1)
                        ELSE IF To > j THEN Upto(i - 1) \o SubSeq(T, j + 1, To) \o Mid \o From(To + 1) ELSE T

(***************************************************************************)
(* What every proto3 file is like, said without the machine.               *)
(***************************************************************************)
Nest(toks) ==
  FoldLeft(LAMBDA q, t : CASE t.s \in {"{", "(", "["} /\ t.t = "sym" -> Append(q, t.s)
                           [] t.s \in {"}", ")", "]"} /\ t.t = "sym" ->
                                IF q # <<>> /\ q[Len(q)] = (CASE t.s = "}" -> "{" [] t.s = ")" -> "(" [] t.s = "]" -> "[")
                                THEN SubSeq(q, 1, Len(q) - 1) ELSE Append(q, "!")
                           [] OTHER -> q, <<>>, toks)
Mark(t, s) == t.t = "sym" /\ t.s = s
(* No construct has these neighbours. *)
Foreign(a, b) ==
  \/ a.t \in {"int", "float", "str"} /\ b.t \in {"int", "float", "str"}
  \/ a.t \in {"int", "float", "str"} /\ b.t = "id" /\ b.s # "to"
  \/ a.t = "sym" /\ b.t = "sym" /\ a.s \in {"=", ",", ".", "-", "+", "(", "["} /\ b.s \in {"=", ",", ";", ")", "]", "}", "{", "["}
  \/ a.t = "sym" /\ b.t = "sym" /\ a.s \in {"{", "}", ";"} /\ b.s \in {"=", ",", ")", "]", "(", "[", "-", "+"}
  \/ a.t = "sym" /\ a.s \in {"{", "}", ";"} /\ b.t \in {"int", "float", "str"}
  \/ a.t = "sym" /\ a.s = ")" /\ b.t \in {"int", "float", "str"}
Accepted(st) == AtEnd(st) /\ "unclear" \notin st.flags
Shape ==
  LET now == Now IN
  Accepted(Read(<<now>>)) =>
    /\ Nest(now) = <<>>
    /\ Len(now) >= 4 /\ now[1] = Id("syntax")
    /\ \A n \in 1..(Len(now) - 1) : ~Foreign(now[n], now[n + 1])
    /\ Mark(now[Len(now)], ";") \/ Mark(now[Len(now)], "}")
Undamaged == \A n \in 1..Len(Toks) : Accepted(Read(<<Toks[n]>>))
ASSUME Undamaged

Vectors == (Emit /\ e # "none") => PrintT("VEC " \o ToJson([files |-> <<Now>>]))
=============================================================================
