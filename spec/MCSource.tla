------------------------------ MODULE MCSource ------------------------------
(***************************************************************************)
(* Sources put together piece by piece, in several ways (constant Mode):   *)
(*   tokens   every token sequence over a small vocabulary, from a number  *)
(*            of starting places, and every wrong token after it           *)
(*   words    every keyword and built-in name, and names that begin with   *)
(*            one, in every place where a name stands                      *)
(*   places   every statement in every block, after every other            *)
(*   scope    trees of declarations in one or two packages with references *)
(*            of every form from every scope                               *)
(*   clash    every kind of item under one name, with uses of it           *)
(*   mult     every label, type and packing option                        *)
(*   lits     literals, character by character, in every place they have   *)
(*   options  option names and constants of every form, in every place     *)
(*   order    several files whose order does not matter                    *)
(* What a source means is checked against independent statements of the    *)
(* same meaning; every finished source is printed for the real parser.     *)
(***************************************************************************)
EXTENDS Meaning, Json

CONSTANTS Mode, Bound, Emit

Syn == <<Id("syntax"), Sym("="), StrT(<<112, 114, 111, 116, 111, 51>>), Sym(";")>>
Num(k) == IF k < 10 THEN <<48 + k>> ELSE <<48 + (k \div 10), 48 + (k % 10)>>
I(k) == IntT(Num(k))
Ids(seq) == [i \in 1..Len(seq) |-> Id(seq[i])]
RECURSIVE DottedFrom(_, _)
DottedFrom(p, i) == IF i > Len(p) THEN <<>>
                    ELSE (IF i > 1 THEN <<Sym(".")>> ELSE <<>>) \o <<Id(p[i])>> \o DottedFrom(p, i + 1)
Dotted(p) == DottedFrom(p, 1)
Ref(u) == (IF u.lead THEN <<Sym(".")>> ELSE <<>>) \o Dotted(u.path)
U(lead, path) == [lead |-> lead, path |-> path]
Field(label, u, name, n, opts) ==
  (IF label = "single" THEN <<>> ELSE <<Id(label)>>) \o Ref(u) \o <<Id(name), Sym("="), I(n)>> \o opts \o <<Sym(";")>>
Open(kw, name) == <<Id(kw), Id(name), Sym("{")>>
CloseB == <<Sym("}")>>
Opt(name, v) == <<Id("option"), Id(name), Sym("="), v, Sym(";")>>
Int32 == U(FALSE, <<"int32">>)

Syms(S) == {Sym(s) : s \in S}
IdSet(S) == {Id(s) : s \in S}

Keywords == {"message", "enum", "oneof", "map", "reserved", "repeated", "optional", "option", "package", "import", "syntax",
             "service", "rpc", "returns", "stream", "to", "max", "weak", "public", "true", "false", "inf", "nan",
             "group", "extend", "extensions", "required", "packed"}
Names == Keywords \cup DOMAIN Builtin
(* A name, and names that only begin or end with it. *)
Variants(w) == {w, w \o "_", w \o "1", w \o "X", w \o "s", "a" \o w}
Words == UNION {Variants(w) : w \in Names}

(***************************************************************************)
(* Starting places: [name, toks, voc] (a file without its syntax line).    *)
(***************************************************************************)
Start(n, t, v) == [n |-> n, t |-> t, v |-> v]
MsgA == Open("message", "A")
TokenStarts == {
  Start("file", <<>>, IdSet({"message", "enum", "service", "package", "import", "option", "A", "b", "public"})
        \cup Syms({";", "{", "}", "=", "."}) \cup {StrT(<<97>>), IntT(<<49>>)}),
  Start("message", MsgA, IdSet({"A", "x", "message", "option", "reserved", "repeated", "optional", "oneof", "int32", "map"})
        \cup Syms({";", "{", "}", "=", ".", "[", "]"}) \cup {IntT(<<49>>), IntT(<<50>>)}),
  Start("field", MsgA \o <<Id("A"), Id("x"), Sym("=")>>, IdSet({"packed", "true", "x", "inf"})
        \cup Syms({";", "}", "=", ".", "[", "]", ",", "-", "(", ")"}) \cup {IntT(<<49>>), FloatT(<<49, 46>>), StrT(<<>>)}),
  Start("oneof", MsgA \o Open("oneof", "o") \o Field("single", Int32, "y", 7, <<>>),
        IdSet({"A", "x", "option", "repeated", "int32", "oneof"}) \cup Syms({";", "{", "}", "=", ".", "["}) \cup {IntT(<<49>>)}),
  Start("enum", Open("enum", "E"), IdSet({"A", "option", "reserved", "to", "x", "E"})
        \cup Syms({";", "}", "=", "-", "[", "]", ",", "{"}) \cup {IntT(<<49>>), StrT(<<65>>)}),
  Start("option", <<Id("option")>>, IdSet({"a", "true", "inf", "nan"})
        \cup Syms({";", "=", ".", "(", ")", "-", "+", "{"}) \cup {IntT(<<49>>), FloatT(<<46, 53>>), StrT(<<92, 110>>)}),
  Start("reserved", MsgA \o <<Id("reserved")>>, IdSet({"to", "max", "a"})
        \cup Syms({";", ",", ".", "=", "-"}) \cup {IntT(<<49>>), IntT(<<57>>), StrT(<<97>>)}),
  Start("enumreserved", Open("enum", "E") \o <<Id("reserved")>>, IdSet({"to", "max", "a"})
        \cup Syms({";", ",", "=", "-"}) \cup {IntT(<<49>>), IntT(<<57>>), StrT(<<97>>)}),
  Start("service", MsgA \o CloseB \o Open("service", "S"), IdSet({"rpc", "option", "A", "stream"})
        \cup Syms({";", "}", "(", ")", "="}) \cup {IntT(<<49>>)}),
  Start("rpc", MsgA \o CloseB \o Open("service", "S") \o <<Id("rpc"), Id("R"), Sym("(")>>, IdSet({"A", "stream", "returns", "option", "x"})
        \cup Syms({";", "{", "}", "(", ")", ".", "="}) \cup {IntT(<<49>>)}),
  Start("import", <<Id("import")>>, IdSet({"weak", "public", "a"}) \cup Syms({";", "."}) \cup {StrT(<<97>>), IntT(<<49>>)})}

(***************************************************************************)
(* Moves: from a state, the token sequences that may be appended.          *)
(***************************************************************************)
VARIABLES st, cur, done, n, voc, dead
vars == <<st, cur, done, n, voc, dead>>

N1 == n + 1
X(w) == w \o ToString(N1)

(* Names in every place; declarations of the name so that references to it mean something. *)
WordStarts == {
  Start("msgname",  <<<<Id("message")>>, <<Sym("{"), Sym("}")>>>>, {}),
  Start("enumname", <<<<Id("enum")>>, <<Sym("{"), Id("V"), Sym("="), I(0), Sym(";"), Sym("}")>>>>, {}),
  Start("svcname",  <<<<Id("service")>>, <<Sym("{"), Sym("}")>>>>, {}),
  Start("nested",   <<MsgA \o <<Id("message")>>, <<Sym("{"), Sym("}"), Sym("}")>>>>, {}),
  Start("fieldname", <<MsgA \o <<Id("int32")>>, <<Sym("="), I(1), Sym(";"), Sym("}")>>>>, {}),
  Start("repname",  <<MsgA \o <<Id("repeated"), Id("A")>>, <<Sym("="), I(1), Sym(";"), Sym("}")>>>>, {}),
  Start("optname",  <<MsgA \o <<Id("optional"), Id("A")>>, <<Sym("="), I(1), Sym(";"), Sym("}")>>>>, {}),
  Start("type",     <<<<Id("message")>>, <<Sym("{")>>, <<Id("f"), Sym("="), I(1), Sym(";"), Sym("}")>>>>, {}),
  Start("reptype",  <<<<Id("message")>>, <<Sym("{"), Id("repeated")>>, <<Id("f"), Sym("="), I(1), Sym(";"), Sym("}")>>>>, {}),
  Start("leadtype", <<<<Id("message")>>, <<Sym("{"), Sym(".")>>, <<Id("f"), Sym("="), I(1), Sym(";"), Sym("}")>>>>, {}),
  Start("typepart", <<MsgA \o <<Id("message")>>, <<Sym("{"), Sym("}"), Id("A"), Sym(".")>>, <<Id("f"), Sym("="), I(1), Sym(";"), Sym("}")>>>>, {}),
  Start("typehead", <<<<Id("message")>>, <<Sym("{"), Id("message"), Id("B"), Sym("{"), Sym("}")>>,
                      <<Sym("."), Id("B"), Id("f"), Sym("="), I(1), Sym(";"), Sym("}")>>>>, {}),
  Start("pkghead",  <<<<Id("package")>>, <<Sym("."), Id("b"), Sym(";"), Id("message"), Id("M"), Sym("{"), Sym(".")>>,
                      <<Sym("."), Id("b"), Sym("."), Id("M"), Id("f"), Sym("="), I(1), Sym(";"), Sym("}")>>>>, {}),
  Start("package",  <<<<Id("package")>>, <<Sym(";"), Id("message"), Id("M"), Sym("{"), Sym("}")>>>>, {}),
  Start("pkgpart",  <<<<Id("package"), Id("p"), Sym(".")>>, <<Sym(";"), Id("message"), Id("M"), Sym("{"), Sym("}")>>>>, {}),
  Start("oneofname", <<MsgA \o <<Id("oneof")>>, <<Sym("{")>> \o Field("single", Int32, "y", 7, <<>>) \o <<Sym("}"), Sym("}")>>>>, {}),
  Start("oneoffield", <<MsgA \o Open("oneof", "o") \o <<Id("int32")>>, <<Sym("="), I(1), Sym(";"), Sym("}"), Sym("}")>>>>, {}),
  Start("oneoftype", <<<<Id("message")>>, <<Sym("{")>> \o Open("oneof", "o"), <<Id("f"), Sym("="), I(1), Sym(";"), Sym("}"), Sym("}")>>>>, {}),
  Start("enumvalue", <<Open("enum", "E"), <<Sym("="), I(0), Sym(";"), Sym("}")>>>>, {}),
  Start("rpcname",  <<MsgA \o CloseB \o Open("service", "S") \o <<Id("rpc")>>,
                      <<Sym("("), Id("A"), Sym(")"), Id("returns"), Sym("("), Id("A"), Sym(")"), Sym(";"), Sym("}")>>>>, {}),
  Start("rpcarg",   <<<<Id("message")>>, <<Sym("{"), Sym("}")>> \o Open("service", "S") \o <<Id("rpc"), Id("R"), Sym("(")>>,
                      <<Sym(")"), Id("returns"), Sym("(")>>, <<Sym(")"), Sym(";"), Sym("}")>>>>, {}),
  Start("rpcstream", <<<<Id("message")>>, <<Sym("{"), Sym("}")>> \o Open("service", "S") \o <<Id("rpc"), Id("R"), Sym("("), Id("stream")>>,
                      <<Sym(")"), Id("returns"), Sym("("), Id("stream")>>, <<Sym(")"), Sym("{"), Sym("}"), Sym("}")>>>>, {}),
  Start("optionname", <<<<Id("option")>>, <<Sym("="), I(1), Sym(";")>>>>, {}),
  Start("optionpart", <<MsgA \o <<Id("option"), Id("a"), Sym(".")>>, <<Sym("="), I(1), Sym(";"), Sym("}")>>>>, {}),
  Start("optionpar", <<Open("service", "S") \o <<Id("option"), Sym("(")>>, <<Sym(")"), Sym("="), I(1), Sym(";"), Sym("}")>>>>, {}),
  Start("constant", <<Open("service", "S") \o <<Id("option"), Id("a"), Sym("=")>>, <<Sym(";"), Sym("}")>>>>, {}),
  Start("constpart", <<Open("service", "S") \o <<Id("option"), Id("a"), Sym("=")>>, <<Sym("."), Id("b"), Sym(";"), Sym("}")>>>>, {}),
  Start("consttail", <<Open("service", "S") \o <<Id("option"), Id("a"), Sym("="), Id("b"), Sym(".")>>, <<Sym(";"), Sym("}")>>>>, {}),
  Start("fieldopt", <<MsgA \o <<Id("A"), Id("f"), Sym("="), I(1), Sym("[")>>, <<Sym("="), Id("x"), Sym("]"), Sym(";"), Sym("}")>>>>, {}),
  Start("enumopt",  <<Open("enum", "E") \o <<Id("f"), Sym("="), I(1), Sym("["), Id("x"), Sym("=")>>, <<Sym("]"), Sym(";"), Sym("}")>>>>, {}),
  Start("resname",  <<MsgA \o <<Id("reserved")>>, <<Sym(";"), Sym("}")>>>>, {})}
(* The same name goes into every gap. *)
RECURSIVE Fill(_, _, _)
Fill(t, w, i) == t[i] \o (IF i = Len(t) THEN <<>> ELSE <<Id(w)>> \o Fill(t, w, i + 1))

Statements ==
  { <<Sym(";")>>, <<Id("option"), Id("a"), Sym("="), I(1), Sym(";")>>,
    <<Id("option"), Sym("("), Id("a"), Sym("."), Id("b"), Sym(")"), Sym("."), Id("c"), Sym("="), Id("d"), Sym("."), Id("e"), Sym(";")>>,
    Open("message", X("M")) \o CloseB, Open("enum", X("E")) \o <<Id("V"), Sym("="), Sym("-"), I(1), Sym(";")>> \o CloseB,
    Open("enum", X("E")) \o CloseB,
    Open("service", X("S")) \o CloseB, <<Id("import"), Id("weak"), StrT(<<97>>), Sym(";")>>,
    <<Id("package"), Id("p"), Sym(";")>>,
    <<Id("reserved"), I(90), Id("to"), I(99), Sym(","), I(80), Sym(";")>>,
    <<Id("reserved"), StrT(<<97>>), Sym(","), StrT(<<98>>), Sym(";")>>,
    Open("oneof", X("o")) \o Field("single", Int32, X("g"), 40 + N1, <<>>) \o CloseB,
    Open("message", X("M")), Open("enum", X("E")), Open("service", X("S")),
    Open("oneof", X("o")) \o Field("single", Int32, X("g"), 40 + N1, <<>>),
    CloseB,
    Field("single", Int32, X("f"), N1, <<>>), Field("repeated", U(FALSE, <<"Z">>), X("f"), N1, <<>>),
    Field("optional", U(TRUE, <<"Z">>), X("f"), N1, <<Sym("["), Id("a"), Sym("="), Id("true"), Sym(","), Id("b"), Sym("="), StrT(<<>>), Sym("]")>>),
    <<Id(X("V")), Sym("="), I(N1), Sym(";")>>,
    <<Id(X("V")), Sym("="), I(N1), Sym("["), Id("a"), Sym("="), FloatT(<<49, 46, 53>>), Sym("]"), Sym(";")>>,
    <<Id("rpc"), Id(X("R")), Sym("("), Id("Z"), Sym(")"), Id("returns"), Sym("("), Id("stream"), Sym("."), Id("Z"), Sym(")"), Sym(";")>>,
    <<Id("rpc"), Id(X("R")), Sym("("), Id("Z"), Sym(")"), Id("returns"), Sym("("), Id("Z"), Sym(")"), Sym("{")>> }

(* Scoping. *)
ScopeNames == {"A", "B"}
ScopeRefs == {U(l, p) : l \in {FALSE, TRUE}, p \in {<<"A">>, <<"B">>, <<"A", "B">>, <<"B", "A">>, <<"A", "A">>, <<"A", "B", "A">>}}
ScopePkgs == {<<>>, <<"A">>, <<"B">>, <<"A", "B">>}
Pkgs == IF Mode = "scope" THEN ScopePkgs ELSE {<<>>, <<"A">>}
NoUses(s) == \A i \in 1..Len(s.decls) : s.decls[i].fields = <<>> /\ s.decls[i].rpcs = <<>>
ScopeMoves ==
  (IF NoUses(st) /\ st.cur # 0 /\ st.decls[st.cur].k = "message" THEN {Field("single", u, "f", 1, <<>>) : u \in ScopeRefs} ELSE {})
  \cup (IF NoUses(st) /\ st.cur = 0 THEN {Open("service", "S") \o <<Id("rpc"), Id("R"), Sym("(")>> \o Ref(u) \o
          <<Sym(")"), Id("returns"), Sym("(")>> \o Ref(u) \o <<Sym(")"), Sym(";"), Sym("}")>> : u \in ScopeRefs} ELSE {})
  \cup {Open("message", x) : x \in ScopeNames}
  \cup {Open("enum", "A") \o <<Id("V"), Sym("="), I(0), Sym(";"), Sym("}")>>}
  \cup {Open("service", "B") \o CloseB}
  \cup (IF st.cur # 0 THEN {CloseB} ELSE {})

(* One name for everything: what is declared twice, and what a use of the name finds. *)
ClashRefs == {U(l, p) : l \in {FALSE, TRUE}, p \in {<<"A">>, <<"A", "A">>}}
ClashRpc(u, v) == <<Id("rpc"), Id("R"), Sym("(")>> \o Ref(u) \o <<Sym(")"), Id("returns"), Sym("("), Id("stream")>> \o Ref(v) \o <<Sym(")"), Sym(";")>>
ClashMoves ==
  (IF st.cur # 0 /\ st.decls[st.cur].fields = <<>> THEN {Field("single", u, "f", 1, <<>>) : u \in ClashRefs}
                                                        \cup {Open("oneof", "o") \o Field("single", u, "f", 1, <<>>) \o CloseB : u \in ClashRefs} ELSE {})
  \cup {Open("message", "A"), Open("enum", "A") \o <<Id("V"), Sym("="), I(0), Sym(";"), Sym("}")>>}
  \cup (IF st.cur = 0 THEN {Open("service", "A") \o CloseB} \cup {Open("service", "A") \o ClashRpc(u, u) \o CloseB : u \in ClashRefs}
                           \cup {Open("service", "S") \o ClashRpc(U(TRUE, <<"Z">>), u) \o CloseB : u \in ClashRefs}
                           \cup {Open("message", "Z") \o CloseB} ELSE {CloseB})

(* Multiplicity. *)
MultStarts ==
  LET types == {U(FALSE, <<b>>) : b \in DOMAIN Builtin} \cup {U(FALSE, <<"A">>), U(FALSE, <<"E">>), U(TRUE, <<"int32">>), U(TRUE, <<"A">>)}
      pre == Open("message", "int32") \o CloseB \o Open("enum", "E") \o <<Id("V"), Sym("="), I(0), Sym(";"), Sym("}")>> \o MsgA
  IN  {Start("mult", pre \o (IF l = "single" THEN <<>> ELSE <<Id(l)>>) \o Ref(u) \o <<Id("f"), Sym("="), I(1)>>, {})
        : l \in {"single", "optional", "repeated"}, u \in types}
      \cup {Start("mult", pre \o Open("oneof", "o") \o Ref(u) \o <<Id("f"), Sym("="), I(1)>>, {}) : u \in types}
PackOptions == {<<Id("packed")>> \o c : c \in {<<Sym("="), Id("true")>>, <<Sym("="), Id("false")>>, <<Sym("="), I(1)>>, <<Sym("="), I(0)>>,
                  <<Sym("="), StrT(<<116, 114, 117, 101>>)>>, <<Sym("="), Id("true"), Sym("."), Id("x")>>, <<Sym("="), Id("True")>>,
                  <<Sym("."), Id("x"), Sym("="), Id("false")>>}}
               \cup {<<Sym("("), Id("packed"), Sym(")"), Sym("="), Id("false")>>, <<Id("deprecated"), Sym("="), Id("false")>>,
                     <<Id("unpacked"), Sym("="), Id("true")>>, <<Id("Packed"), Sym("="), Id("false")>>,
                     <<Id("a"), Sym("."), Id("packed"), Sym("="), Id("false")>>,
                     <<Sym("("), Id("a"), Sym(")"), Sym("."), Id("packed"), Sym("="), Id("false")>>,
                     <<Sym("("), Id("a"), Sym("."), Id("packed"), Sym(")"), Sym("="), Id("true")>>,
                     <<Sym("("), Id("packed"), Sym("."), Id("a"), Sym(")"), Sym("="), Id("false")>>}
MultMoves ==
  CASE st.at = "F3" -> {<<Sym(";"), Sym("}")>>} \cup {<<Sym("[")>> \o o : o \in PackOptions}
    [] st.at \in {"C9", "C3"} -> {<<Sym("]"), Sym(";"), Sym("}")>>} \cup {<<Sym(",")>> \o o : o \in PackOptions}
    [] OTHER -> {}

(* Literals grow by characters: cur's last token is the literal. *)
LitStarts == {Start("int", IntT(<<>>), {48, 49, 55, 56, 70, 97, 120, 88}),
              Start("float", FloatT(<<>>), {48, 49, 57, 46, 69, 101, 43, 45}),
              Start("dq", StrT(<<>>), {97, 92, 120, 48, 51, 56, 110, 34, 39, 63}),
              Start("sq", Tok("str", "'", <<>>), {97, 92, 88, 70, 52, 55, 116, 34, 39, 117})}
(* Where a literal can be seen (or, for the last two, only be refused). *)
Before(t) == Syn \o <<Id("option"), Id("before"), Sym("="), I(1), Sym(";")>> \o t
LitFiles(neg, k) ==
  {Before(MsgA \o Field("single", Int32, "f", 1, <<Sym("["), Id("a"), Sym("=")>> \o neg \o <<k, Sym("]")>>) \o CloseB
          \o Open("service", "S") \o <<Id("option"), Id("b"), Sym("=")>> \o neg \o <<k, Sym(";")>> \o CloseB)}
  \cup (IF k.t = "int" /\ neg # <<Sym("+")>>
        THEN {Before(Open("enum", "E") \o <<Id("V"), Sym("=")>> \o neg \o <<k, Sym(";")>> \o CloseB)} ELSE {})
  \cup (IF k.t = "int" /\ neg = <<>>
        THEN {Before(MsgA \o <<Id("bytes"), Id("f"), Sym("="), k, Sym(";")>> \o CloseB)} ELSE {})
  \cup (IF k.t = "str"
        THEN {Before(<<Id("import"), k, Sym(";")>> \o MsgA \o CloseB), Before(MsgA \o <<Id("reserved"), k, Sym(";")>> \o CloseB)} ELSE {})

(* Option names and constants. *)
OptPlaces == {
  Start("field",  MsgA \o <<Id("int32"), Id("f"), Sym("="), I(1), Sym("[")>>, {}),
  Start("member", MsgA \o Open("oneof", "o") \o <<Id("bytes"), Id("f"), Sym("="), I(1), Sym("[")>>, {}),
  Start("second", MsgA \o <<Id("repeated"), Id("int32"), Id("f"), Sym("="), I(1), Sym("["), Id("b"), Sym("="), I(2), Sym(",")>>, {}),
  Start("oneof",  MsgA \o Open("oneof", "o") \o Field("single", Int32, "f", 1, <<>>) \o <<Id("option")>>, {}),
  Start("value",  Open("enum", "E") \o <<Id("V"), Sym("="), I(1), Sym("[")>>, {}),
  Start("service", Open("service", "S") \o <<Id("option")>>, {}),
  Start("rpc",    MsgA \o CloseB \o Open("service", "S") \o <<Id("rpc"), Id("R"), Sym("("), Id("A"), Sym(")"), Id("returns"), Sym("("),
                                                            Id("A"), Sym(")"), Sym("{"), Id("option")>>, {})}
OptMoves ==
  CASE st.at \in {"O1", "N1"} -> {<<Sym("(")>>} \cup {<<Id(x)>> : x \in {"a", "packed", "option"}}
    [] st.at \in {"N2", "N4", "N6"} -> {<<Id(x)>> : x \in {"a", "packed"}}
    [] st.at = "N3" -> {<<Sym(".")>>, <<Sym(")")>>}
    [] st.at = "N5" -> {<<Sym(".")>>, <<Sym("=")>>}
    [] st.at = "C1" -> {<<Id(x)>> : x \in {"a", "true", "inf", "false"}} \cup {<<Sym("-")>>, <<Sym("+")>>, <<I(1)>>, <<StrT(<<97>>)>>}
    [] st.at = "C2" -> {<<Id("inf")>>, <<Id("nan")>>, <<FloatT(<<49, 46>>)>>}
    [] st.at = "C4" -> {<<Id(x)>> : x \in {"b", "true", "nan"}}
    [] st.at = "C3" -> {<<Sym(".")>>, IF st.tmp.om = "stmt" THEN <<Sym(";")>> ELSE <<Sym("]"), Sym(";")>>}
    [] st.at = "C9" -> {IF st.tmp.om = "stmt" THEN <<Sym(";")>> ELSE <<Sym("]"), Sym(";")>>}
    [] OTHER -> {}

EdgeDigits == { \* around the ends of the 64-bit ranges, in the three bases
  <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,54>>, <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>>,
  <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>, <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,57>>,
  <<49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,53>>, <<49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,54>>,
  <<48,120,55,102,102,102,102,102,102,102,102,102,102,102,102,102,102,102>>, <<48,120,56,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48>>,
  <<48,88,56,48,48,48,48,48,48,48,48,48,48,48,48,48,48,49>>, <<48,120,70,70,70,70,70,70,70,70,70,70,70,70,70,70,70,70>>,
  <<48,120,49,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48>>, <<48,120,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48,49>>,
  <<48,55,55,55,55,55,55,55,55,55,55,55,55,55,55,55,55,55,55,55,55,55>>, <<48,49,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48>>,
  <<48,49,55,55,55,55,55,55,55,55,55,55,55,55,55,55,55,55,55,55,55,55,55>>, <<48,50,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48>>,
  <<50,49,52,55,52,56,51,54,52,56>>, <<52,50,57,52,57,54,55,50,57,54>>, <<48>>, <<48,48>>, <<48,120,48>>}

(***************************************************************************)
Root(s) == /\ st = FeedAll(NewState, Syn \o s.t) /\ cur = Syn \o s.t /\ voc = {<<v>> : v \in s.v}
Init ==
  /\ done = <<>> /\ n = 0 /\ dead = FALSE
  /\ CASE Mode = "tokens" -> \E s \in TokenStarts : Root(s)
       [] Mode = "places" -> LET t == Open("message", "Z") \o CloseB IN Root(Start("places", t, {}))
       [] Mode = "words"  -> \E s \in WordStarts, w \in Words :
            LET t == Syn \o Fill(s.t, w, 1) IN st = FeedAll(NewState, t) /\ cur = t /\ voc = {}
       [] Mode \in {"scope", "clash"} -> \E p \in Pkgs :
            LET t == Syn \o (IF p = <<>> THEN <<>> ELSE <<Id("package")>> \o Dotted(p) \o <<Sym(";")>>)
            IN  st = FeedAll(NewState, t) /\ cur = t /\ voc = {}
       [] Mode = "mult"   -> \E s \in MultStarts : Root(s)
       [] Mode = "options" -> \E s \in OptPlaces : Root(s)
       [] Mode = "lits"   -> \/ \E s \in LitStarts : st = NewState /\ cur = <<s.t>> /\ voc = s.v
                             \/ \E d \in EdgeDigits : st = NewState /\ cur = <<IntT(d)>> /\ voc = {}

Moves ==
  CASE Mode = "tokens" -> voc
    [] Mode = "places" -> Statements
    [] Mode = "scope"  -> ScopeMoves
    [] Mode = "clash"  -> ClashMoves
    [] Mode = "mult"   -> MultMoves
    [] Mode = "options" -> OptMoves
    [] OTHER -> {}

Step == /\ st.ok /\ n < Bound /\ Mode # "lits"
        /\ \E m \in Moves :
             LET s == FeedAll(st, m) IN
             /\ s.ok \/ Mode = "tokens"
             /\ st' = s /\ cur' = cur \o m /\ n' = N1 /\ dead' = ~s.ok
        /\ UNCHANGED <<done, voc>>
(* The next file of a source. *)
File == /\ Mode \in {"scope", "clash"} /\ AtEnd(st) /\ st.decls # <<>> /\ st.file = 1 /\ n < Bound
        /\ \E p \in Pkgs :
             LET t == Syn \o (IF p = <<>> THEN <<>> ELSE <<Id("package")>> \o Dotted(p) \o <<Sym(";")>>) IN
             st' = FeedAll(NextFile(st), t) /\ cur' = t
        /\ done' = Append(done, cur) /\ n' = N1 /\ UNCHANGED <<voc, dead>>
Grow == /\ Mode = "lits" /\ Len(cur[1].c) < Bound
        /\ \E x \in voc : cur' = <<[cur[1] EXCEPT !.c = Append(@, x)]>>
        /\ UNCHANGED <<st, done, n, voc, dead>>
Next == Step \/ File \/ Grow
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* The source with everything that is still open closed.                   *)
(***************************************************************************)
Closers(s) == [i \in 1..((IF s.rb THEN 1 ELSE 0) + (IF s.oo > 0 THEN 1 ELSE 0) + (IF s.cur = 0 THEN 0 ELSE Len(PathOf(s, s.cur)) - Len(s.pkgs[s.file])))
                 |-> Sym("}")]
Whole == Mode # "lits" /\ st.ok /\ st.at = "B"
Closed == FeedAll(st, Closers(st))
Files == Append(done, cur \o (IF Whole THEN Closers(st) ELSE <<>>))

(***************************************************************************)
(* The specification is sane.                                              *)
(***************************************************************************)
TypeOk == Mode # "lits" =>
  /\ st.ok \in BOOLEAN /\ st.cur \in 0..Len(st.decls) /\ Len(st.pkgs) = st.file
  /\ st.ok => st.at # "S0"
  /\ dead => ~st.ok
(* Closing always closes. *)
Closable == Whole => AtEnd(Closed)
(* An empty statement means nothing. *)
EmptyStatement == Whole => Feed(st, Sym(";")) = st

Scopes(path) == {SubSeq(path, 1, k) : k \in 0..Len(path)}
In(scope, u) == IF scope = <<>> THEN Join(u.path) ELSE Join(scope) \o "." \o Join(u.path)
Uses(s, i) == UsesOf(s.decls[i])
(* The declared item of the innermost scope that has the name, or none; an absolute name has only the root. *)
Scoping ==
  Whole =>
    LET s == Closed ix == Index(Closed) IN
    \A i \in 1..Len(s.decls) : \A u \in Uses(s, i) :
      LET t == Resolve(ix, u.lead, u.path, ix.path[i])
          sc == IF u.lead THEN {<<>>} ELSE Scopes(ix.path[i])
          hit == {p \in sc : In(p, u) \in ix.names}
      IN  IF hit = {} THEN t = 0
          ELSE \E p \in hit : /\ \A q \in hit : Len(q) <= Len(p)
                              /\ t # 0 /\ ix.fn[t] = In(p, u)

(* Exactly the inconsistent sources have errors. *)
ErrorsIff ==
  Whole =>
    LET s == Closed ix == Index(Closed)
        bad(u, i) == LET t == Resolve(ix, u.lead, u.path, ix.path[i]) IN
                     t = 0 \/ s.decls[t].k = "service" \/ (u.rpc /\ s.decls[t].k # "message")
    IN  ((Errors(s, ix) = {}) <=>
          /\ Cardinality(ix.names) = Len(s.decls)
          /\ \A i \in 1..Len(s.decls) : \A u \in Uses(s, i) : ~bad(u, i)
          /\ s.flags \cap {"literal", "map", "reserved"} = {})

(* Names, parents and inner types of the definitions fit together. *)
Integrity ==
  Whole =>
    LET s == Closed ix == Index(Closed) IN
    (Errors(s, ix) = {}) =>
      LET d == Defs(s, ix) IN
      \A x \in DOMAIN d :
        /\ d[x].full = x
        /\ d[x].up # "" => /\ d[x].up \in DOMAIN d /\ d[d[x].up].k = "message" /\ x \in d[d[x].up].inner
                           /\ x = d[x].up \o "." \o d[x].name
        /\ d[x].k = "message" =>
             /\ \A y \in d[x].inner : y \in DOMAIN d /\ d[y].up = x
             /\ \A f \in SetOf(d[x].fields) :
                  /\ (f.ref # "") => (f.ref \in DOMAIN d /\ KindName(d[f.ref].k) = f.ty)
                  /\ (f.ty \in {"Message", "Enum"}) <=> (f.ref # "")
                  /\ f.oo # "" => (HasName(d[x].oneofs, f.oo) /\ f.mult = "Single")

(* The declarations mean the same when the files come in the other order. *)
Strip(d) == [x \in DOMAIN d |-> d[x]]
FileOrder ==
  (Whole /\ done # <<>>) =>
    LET ix == Index(Closed)
        s2 == Read(<<Files[2], Files[1]>>)
        i2 == Index(s2)
    IN  /\ i2.names = ix.names /\ i2.dups = ix.dups
        /\ ix.dups = {} => Errors(s2, i2) = Errors(Closed, ix)
        /\ Errors(s2, i2) = {} => Strip(Defs(s2, i2)) = Strip(Defs(Closed, ix))

(* Packing in the words of the language guide. *)
Packing ==
  (Whole /\ Mode = "mult") =>
    LET s == Closed
        f == s.decls[3].fields[1]
        opt == {k \in 1..Len(f.opts) : f.opts[k].n = "packed"}
        numeric == IsBuiltin(f.lead, f.path) /\ f.path[1] \notin {"string", "bytes"}
    IN  (Multiplicity(f) = "RepeatedPacked") <=> (f.label = "repeated" /\ numeric /\ \A k \in opt : f.opts[k].v = Const("Bool", FALSE, <<1>>, ""))

(* The option just read is the tokens written for it, put together. *)
OptText(toks) == FoldLeft(LAMBDA a, k : a \o k.s, "", toks)
LastOption(s) ==
  LET d == s.decls[Len(s.decls)] IN
  CASE d.k = "enum" -> d.values[1].opts[1]
    [] d.k = "service" -> IF d.rpcs = <<>> THEN d.opts[1] ELSE d.rpcs[1].opts[1]
    [] d.oneofs # <<>> /\ d.oneofs[1].opts # <<>> -> d.oneofs[1].opts[1]
    [] OTHER -> LET o == d.fields[1].opts IN o[Len(o)]
(* The tokens after the last of these, up to the last equals sign. *)
LastOf(S) == CHOOSE i \in 1..Len(cur) : cur[i] \in S /\ \A j \in (i + 1)..Len(cur) : cur[j] \notin S
OptName ==
  (Mode = "options" /\ Whole /\ n > 0) =>
    LET eq == LastOf({Sym("=")})
        name == LastOption(st).n
        k == CHOOSE i \in 1..eq : OptText(SubSeq(cur, i, eq - 1)) = name
        rest == SubSeq(cur, eq + 1, Len(cur))
        v == LastOption(st).v
    IN  /\ cur[k - 1] \in {Sym("["), Sym(","), Id("option")}
        /\ v.k = "Ident" => SubSeq(cur, eq + 1, eq + 1)[1].t = "id"
        /\ v.k \in {"Bool", "Inf", "Nan"} => \A i \in 1..Len(rest) : rest[i] # Sym(".")

(* Escapes never change the value of the rest of a string; a literal's value does not depend on leading zeros of its base. *)
LitOk(k) == CASE k.t = "int" -> IntLit(k.c).ok [] k.t = "float" -> FloatLit(k.c).ok
              [] OTHER -> StrLit(k.c, IF k.s = "'" THEN 39 ELSE 34).ok
ZeroPad ==
  (Mode = "lits" /\ cur[1].t = "int" /\ LitOk(cur[1])) =>
    LET c == cur[1].c v == IntLit(c).v IN
    /\ (v = <<>> \/ v[Len(v)] # 0)
    /\ c[1] = 48 /\ (Len(c) = 1 \/ c[2] \notin {88, 120}) => IntLit(<<48>> \o c).v = v
    /\ Len(c) > 1 /\ c[2] \in {88, 120} => IntLit(<<48, 120, 48>> \o SubSeq(c, 3, Len(c))).v = v

(***************************************************************************)
Out(files) == PrintT("VEC " \o ToJson([files |-> files]))
Signs == {<<>>, <<Sym("-")>>, <<Sym("+")>>}
Vectors ==
  Emit =>
    IF Mode = "lits"
    THEN LET k == cur[1] IN
         (k.c # <<>> \/ k.t = "str") =>
           IF ~LitOk(k) THEN Len(k.c) <= 4 => (k.t = "str" => \A f \in LitFiles(<<>>, k) : Out(<<f>>))
           ELSE \A sg \in IF k.t = "str" THEN {<<>>} ELSE Signs : \A f \in LitFiles(sg, k) : Out(<<f>>)
    ELSE (Whole \/ Mode \in {"tokens", "words"}) => Out(Files)
=============================================================================
