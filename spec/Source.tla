------------------------------- MODULE Source -------------------------------
(***************************************************************************)
(* proto3 sources as a machine that reads one token per step.              *)
(*                                                                         *)
(* Tokens are [t, s, c]: an identifier ("id", name), a symbol ("sym"), an  *)
(* integer or floating-point literal ("int" / "float", its characters) or  *)
(* a string ("str", its quote as s and the characters between as c).       *)
(* Layout between tokens does not exist here, which is the statement that  *)
(* it has no meaning.  Feed(st, tok) is the only transition; ok becomes    *)
(* FALSE when no proto3 file continues that way; the flag "unclear" then   *)
(* says that some edition of the language has files that do (aggregate     *)
(* option values, adjacent strings, types named like keywords ...).        *)
(*                                                                         *)
(* The state carries the declarations read so far, flat: decls[i].up is    *)
(* the enclosing declaration (0 for top-level ones).                       *)
(***************************************************************************)
EXTENDS Literals, FiniteSets, TLC

Tok(t, s, c) == [t |-> t, s |-> s, c |-> c]
Id(s)    == Tok("id", s, <<>>)
Sym(s)   == Tok("sym", s, <<>>)
IntT(c)  == Tok("int", "", c)
FloatT(c) == Tok("float", "", c)
StrT(c)  == Tok("str", "\"", c)

IsId(k)  == k.t = "id"
IsSym(k, s) == k.t = "sym" /\ k.s = s

Const(k, neg, c, s) == [k |-> k, neg |-> neg, c |-> c, s |-> s]
Option(n, v) == [n |-> n, v |-> v]

NoTmp == [label |-> "single", lead |-> FALSE, path |-> <<>>, tgt |-> "", name |-> "", num |-> <<>>, neg |-> FALSE, cneg |-> FALSE,
          on |-> "", opts |-> <<>>, om |-> "", cid |-> <<>>, stream |-> FALSE, kw |-> "", arg |-> <<>>]

NewState == [ok |-> TRUE, at |-> "S0", file |-> 1, pkgs |-> << <<>> >>, decls |-> <<>>,
             cur |-> 0, oo |-> 0, rb |-> FALSE, tmp |-> NoTmp,
             flags |-> {}]      \* "map", "literal" (an integer without a representation), "reserved"

NewDecl(st, k, name) ==
  [k |-> k, name |-> name, file |-> st.file, up |-> st.cur, fields |-> <<>>, oneofs |-> <<>>,
   values |-> <<>>, opts |-> <<>>, rpcs |-> <<>>]

Ctx(st) == IF st.cur = 0 THEN "file"
           ELSE IF st.rb THEN "rpc" ELSE IF st.oo > 0 THEN "oneof" ELSE st.decls[st.cur].k

No(st) == [st EXCEPT !.ok = FALSE]
Unclear(st) == [st EXCEPT !.ok = FALSE, !.flags = @ \cup {"unclear"}]
Else(c, st) == IF c THEN Unclear(st) ELSE No(st)
Go(st, at) == [st EXCEPT !.at = at]
Body(st) == [st EXCEPT !.at = "B", !.tmp = NoTmp]
Begin(st, at, tmp) == [st EXCEPT !.at = at, !.tmp = tmp]
If(c, a, st) == IF c THEN a ELSE No(st)

Labels   == {"repeated", "optional"}
NotTypes == {"map", "group", "repeated", "optional", "extend", "extensions"}
MsgKeywords == {"option", "enum", "message", "oneof", "reserved", "map"}
MapKeys  == {"int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64",
             "bool", "string"}

(***************************************************************************)
(* Finished constructs.                                                    *)
(***************************************************************************)
Decls(st) == st.decls
OpenDecl(st, k, name) ==
  [st EXCEPT !.decls = Append(@, NewDecl(st, k, name)), !.cur = Len(st.decls) + 1, !.at = "B", !.tmp = NoTmp]

Close(st) ==
  CASE st.rb     -> Body([st EXCEPT !.rb = FALSE])
    [] st.oo > 0 /\ ~st.rb -> Body([st EXCEPT !.oo = 0])
    [] OTHER     -> Body([st EXCEPT !.cur = st.decls[st.cur].up])

Flag(st, f, cond) == IF cond THEN [st EXCEPT !.flags = @ \cup {f}] ELSE st

AddField(st) ==
  LET m == st.tmp IN
  IF m.tgt = "map" THEN Body([st EXCEPT !.flags = @ \cup {"map"}])
  ELSE Body([st EXCEPT !.decls[st.cur].fields = Append(@,
         [name |-> m.name, num |-> m.num, label |-> m.label, lead |-> m.lead, path |-> m.path,
          opts |-> m.opts, oo |-> st.oo])])

AddValue(st) ==
  Body([st EXCEPT !.decls[st.cur].values = Append(@,
         [name |-> st.tmp.name, num |-> I64(st.tmp.neg, st.tmp.num), opts |-> st.tmp.opts])])

AddOption(st, o) ==
  CASE Ctx(st) = "file"  -> Body(st)
    [] Ctx(st) = "oneof" -> Body([st EXCEPT !.decls[st.cur].oneofs[st.oo].opts = Append(@, o)])
    [] Ctx(st) = "rpc"   -> Body([st EXCEPT !.decls[st.cur].rpcs[Len(st.decls[st.cur].rpcs)].opts = Append(@, o)])
    [] OTHER             -> Body([st EXCEPT !.decls[st.cur].opts = Append(@, o)])

AddRpc(st, body) ==
  LET m == st.tmp
      r == [name |-> m.name, in |-> m.arg, out |-> [stream |-> m.stream, lead |-> m.lead, path |-> m.path], opts |-> <<>>]
  IN  Body([st EXCEPT !.decls[st.cur].rpcs = Append(@, r), !.rb = body])

(* A constant is complete; tok has to end the option. *)
EndOption(st, v, k) ==
  LET o == Option(st.tmp.on, v)
      bad == v.k = "Int" /\ ~FitsI64(v.neg, v.c)
      s == Flag(st, "literal", bad)
  IN  IF st.tmp.om = "stmt" THEN IF IsSym(k, ";") THEN AddOption(s, o)
                                 \* `option a = 1 []` could be a field of the type `option`
                                 ELSE Else(Ctx(st) \in {"message", "oneof"} /\ IsSym(k, "["), st)
      ELSE LET t == [s EXCEPT !.tmp.opts = Append(@, o), !.tmp.on = "", !.tmp.cid = <<>>]
           IN  CASE IsSym(k, ",") -> Go(t, "N1")
                 [] IsSym(k, "]") -> Go(t, "F4")
                 [] OTHER -> No(st)

IdentConst(neg, cid) ==
  IF Len(cid) = 1 /\ cid[1] \in {"true", "false"} THEN Const("Bool", FALSE, <<IF cid[1] = "true" THEN 1 ELSE 0>>, "")
  ELSE IF Len(cid) = 1 /\ cid[1] = "inf" THEN Const("Inf", neg, <<>>, "")
  ELSE IF Len(cid) = 1 /\ cid[1] = "nan" THEN Const("Nan", neg, <<>>, "")
  ELSE Const("Ident", FALSE, <<>>, FoldLeft(LAMBDA a, b : a \o "." \o b, cid[1], Tail(cid)))

(***************************************************************************)
(* Statements.                                                             *)
(***************************************************************************)
TypeStart(st, label, k) ==
  IF IsSym(k, ".") THEN Begin(st, "T0d", [NoTmp EXCEPT !.label = label, !.lead = TRUE])
  ELSE IF ~IsId(k) THEN Else(label # "single" /\ IsSym(k, "="), st)
  ELSE IF k.s \in NotTypes THEN Unclear(st)
  ELSE Begin(st, "T1", [NoTmp EXCEPT !.label = label, !.path = <<k.s>>])

Keyword(st, at, k) == Begin(st, at, [NoTmp EXCEPT !.kw = k.s])
OptionStmt(st, k) == Begin(st, "O1", [NoTmp EXCEPT !.om = "stmt", !.kw = k.s])

Statement(st, k) ==
  LET c == Ctx(st) IN
  IF IsSym(k, ";") THEN Body(st)
  ELSE IF IsSym(k, "}") THEN If(c # "file", Close(st), st)
  ELSE IF c \in {"message", "oneof"} /\ IsSym(k, ".") THEN TypeStart(st, "single", k)
  ELSE IF ~IsId(k) THEN No(st)
  ELSE CASE c = "file" ->
              (CASE k.s = "import"  -> Keyword(st, "I1", k)
                 [] k.s = "package" -> IF st.pkgs[st.file] = <<>> THEN Keyword(st, "P1", k) ELSE Unclear(st)
                 [] k.s = "extend"  -> Unclear(st)
                 [] k.s = "option"  -> OptionStmt(st, k)
                 [] k.s = "message" -> Keyword(st, "M1", k)
                 [] k.s = "enum"    -> Keyword(st, "E1", k)
                 [] k.s = "service" -> Keyword(st, "V1", k)
                 [] OTHER -> No(st))
         [] c = "message" ->
              (CASE k.s = "option"   -> OptionStmt(st, k)
                 [] k.s = "message"  -> Keyword(st, "M1", k)
                 [] k.s = "enum"     -> Keyword(st, "E1", k)
                 [] k.s = "oneof"    -> Keyword(st, "OF1", k)
                 [] k.s = "reserved" -> Keyword(st, "R1", k)
                 [] k.s = "map"      -> Keyword(st, "MAP1", k)
                 [] k.s \in Labels   -> Begin(st, "T0", [NoTmp EXCEPT !.label = k.s])
                 [] OTHER -> TypeStart(st, "single", k))
         [] c = "oneof" -> IF k.s = "option" THEN OptionStmt(st, k) ELSE TypeStart(st, "single", k)
         [] c = "enum" ->
              (CASE k.s = "option"   -> OptionStmt(st, k)
                 [] k.s = "reserved" -> Keyword(st, "R1", k)
                 [] OTHER -> Begin(st, "EV1", [NoTmp EXCEPT !.name = k.s]))
         [] c = "service" ->
              (CASE k.s = "option" -> OptionStmt(st, k)
                 [] k.s = "rpc"    -> Keyword(st, "RPC1", k)
                 [] OTHER -> No(st))
         [] c = "rpc" -> If(k.s = "option", OptionStmt(st, k), st)
         [] OTHER -> No(st)

(* What looked like a keyword was the first part of a type name or an enum value's name. *)
NotKeyword(st, k) ==
  IF Ctx(st) = "message" /\ st.tmp.kw \in MsgKeywords /\ IsSym(k, ".")
    THEN Begin(st, "T2", [NoTmp EXCEPT !.path = <<st.tmp.kw>>])
  ELSE IF Ctx(st) = "enum" /\ IsSym(k, "=")
    THEN Begin(st, "EV2", [NoTmp EXCEPT !.name = st.tmp.kw])
  ELSE No(st)
(* `message a = 1` could be a field of the type `message`. *)
KeywordType(st, k) == Else(Ctx(st) \in {"message", "oneof"} /\ IsSym(k, "="), st)
BadString(st, k) == Else(StrUnclear(k.c), st)
ReadString(st, k, next) == IF k.t # "str" THEN No(st)
                           ELSE IF StrLit(k.c, IF k.s = "'" THEN 39 ELSE 34).ok THEN Go(st, next) ELSE BadString(st, k)

SetInt(st, k, next) ==
  LET i == IntLit(k.c) IN If(k.t = "int" /\ i.ok, [st EXCEPT !.at = next, !.tmp.num = i.v], st)
SkipInt(st, k, next) ==   \* reserved numbers have no meaning, but have to be integers
  LET i == IntLit(k.c) IN If(k.t = "int" /\ i.ok, Flag(Go(st, next), "reserved", ~FitsI64(FALSE, i.v)), st)

Feed(st, k) ==
  LET at == st.at
      m  == st.tmp
  IN
  IF ~st.ok THEN st
  ELSE
  CASE at = "B" -> Statement(st, k)
    (* option names and constants *)
    [] at = "O1" -> IF IsId(k) THEN [st EXCEPT !.at = "N5", !.tmp.on = k.s]
                    ELSE IF IsSym(k, "(") THEN Go(st, "N2") ELSE NotKeyword(st, k)
    [] at = "N1" -> IF IsId(k) THEN [st EXCEPT !.at = "N5", !.tmp.on = k.s] ELSE If(IsSym(k, "("), Go(st, "N2"), st)
    [] at = "N2" -> IF IsId(k) THEN [st EXCEPT !.at = "N3", !.tmp.on = "(" \o k.s] ELSE Else(IsSym(k, "."), st)
    [] at = "N3" -> IF IsSym(k, ".") THEN Go(st, "N4") ELSE If(IsSym(k, ")"), [st EXCEPT !.at = "N5", !.tmp.on = @ \o ")"], st)
    [] at = "N4" -> If(IsId(k), [st EXCEPT !.at = "N3", !.tmp.on = @ \o "." \o k.s], st)
    [] at = "N5" -> IF IsSym(k, ".") THEN Go(st, "N6") ELSE If(IsSym(k, "="), Go(st, "C1"), st)
    [] at = "N6" -> IF IsId(k) THEN [st EXCEPT !.at = "N5", !.tmp.on = @ \o "." \o k.s] ELSE Else(IsSym(k, "("), st)
    [] at = "C1" -> IF IsSym(k, "-") \/ IsSym(k, "+") THEN [st EXCEPT !.at = "C2", !.tmp.cneg = (k.s = "-")]
                    ELSE IF IsId(k) THEN [st EXCEPT !.at = "C3", !.tmp.cid = <<k.s>>]
                    ELSE IF k.t = "str" THEN LET s == StrLit(k.c, IF k.s = "'" THEN 39 ELSE 34) IN
                      IF s.ok THEN [st EXCEPT !.at = "C9", !.tmp.arg = Const("Str", FALSE, s.v, "")] ELSE BadString(st, k)
                    ELSE IF IsSym(k, "{") THEN Unclear(st)
                    ELSE IF k.t = "int" THEN LET i == IntLit(k.c) IN
                      If(i.ok, [st EXCEPT !.at = "C9", !.tmp.arg = Const("Int", FALSE, i.v, "")], st)
                    ELSE If(k.t = "float" /\ FloatLit(k.c).ok, [st EXCEPT !.at = "C9", !.tmp.arg = Const("Float", FALSE, k.c, "")], st)
    [] at = "C2" -> IF k.t = "int" THEN LET i == IntLit(k.c) IN
                      If(i.ok, [st EXCEPT !.at = "C9", !.tmp.arg = Const("Int", m.cneg, i.v, "")], st)
                    ELSE IF k.t = "float" THEN If(FloatLit(k.c).ok, [st EXCEPT !.at = "C9", !.tmp.arg = Const("Float", m.cneg, k.c, "")], st)
                    ELSE If(IsId(k) /\ k.s \in {"inf", "nan"}, [st EXCEPT !.at = "C9", !.tmp.arg = IdentConst(m.cneg, <<k.s>>)], st)
    [] at = "C3" -> IF IsSym(k, ".") THEN Go(st, "C4") ELSE EndOption(st, IdentConst(FALSE, m.cid), k)
    [] at = "C4" -> If(IsId(k), [st EXCEPT !.at = "C3", !.tmp.cid = Append(@, k.s)], st)
    [] at = "C9" -> IF m.arg.k = "Str" /\ k.t = "str" THEN Unclear(st) ELSE EndOption(st, m.arg, k)
    (* fields *)
    [] at = "T0" -> TypeStart(st, m.label, k)
    [] at = "T0d" -> If(IsId(k), [st EXCEPT !.at = "T1", !.tmp.path = <<k.s>>], st)
    [] at = "T1" -> IF IsSym(k, ".") THEN Go(st, "T2")
                    ELSE (CASE m.tgt = ""    -> IF IsId(k) THEN [st EXCEPT !.at = "F1", !.tmp.name = k.s]
                                                ELSE Else(m.label # "single" /\ ~m.lead /\ Len(m.path) = 1 /\ IsSym(k, "="), st)
                           [] m.tgt = "map" -> If(IsSym(k, ">"), Go(st, "MAP4"), st)
                           [] m.tgt = "rin" -> If(IsSym(k, ")"), [st EXCEPT !.at = "RPC5",
                                                 !.tmp.arg = [stream |-> m.stream, lead |-> m.lead, path |-> m.path]], st)
                           [] m.tgt = "rout" -> If(IsSym(k, ")"), Go(st, "RPC7"), st))
    [] at = "T2" -> If(IsId(k), [st EXCEPT !.at = "T1", !.tmp.path = Append(@, k.s)], st)
    [] at = "F1" -> If(IsSym(k, "="), Go(st, "F2"), st)
    [] at = "F2" -> LET s == SetInt(st, k, "F3") IN IF s.ok THEN Flag(s, "literal", ~FitsU64(s.tmp.num)) ELSE s
    [] at = "F3" -> IF IsSym(k, ";") THEN (IF Ctx(st) = "enum" THEN AddValue(st) ELSE AddField(st))
                    ELSE If(IsSym(k, "["), [st EXCEPT !.at = "N1", !.tmp.om = "list"], st)
    [] at = "F4" -> If(IsSym(k, ";"), IF Ctx(st) = "enum" THEN AddValue(st) ELSE AddField(st), st)
    (* map fields *)
    [] at = "MAP1" -> IF IsSym(k, "<") THEN Go(st, "MAP2") ELSE IF IsId(k) THEN Unclear(st) ELSE NotKeyword(st, k)
    [] at = "MAP2" -> If(IsId(k) /\ k.s \in MapKeys, Go(st, "MAP3"), st)
    [] at = "MAP3" -> If(IsSym(k, ","), [st EXCEPT !.at = "MAP3b"], st)
    [] at = "MAP3b" -> LET s == TypeStart(st, "single", k) IN IF s.ok THEN [s EXCEPT !.tmp.tgt = "map"] ELSE s
    [] at = "MAP4" -> If(IsId(k), [st EXCEPT !.at = "F1", !.tmp.name = k.s], st)
    (* enum values *)
    [] at = "EV1" -> If(IsSym(k, "="), Go(st, "EV2"), st)
    [] at = "EV2" -> IF IsSym(k, "-") THEN [st EXCEPT !.at = "EV3", !.tmp.neg = TRUE]
                     ELSE LET s == SetInt(st, k, "F3") IN IF s.ok THEN Flag(s, "literal", ~FitsI64(FALSE, s.tmp.num)) ELSE s
    [] at = "EV3" -> LET s == SetInt(st, k, "F3") IN IF s.ok THEN Flag(s, "literal", ~FitsI64(TRUE, s.tmp.num)) ELSE s
    (* blocks *)
    [] at \in {"M1", "E1", "V1", "OF1"} ->
         IF IsId(k) THEN [st EXCEPT !.at = at \o "b", !.tmp.name = k.s] ELSE NotKeyword(st, k)
    [] at = "M1b"  -> IF IsSym(k, "{") THEN OpenDecl(st, "message", m.name) ELSE KeywordType(st, k)
    [] at = "E1b"  -> IF IsSym(k, "{") THEN OpenDecl(st, "enum", m.name) ELSE KeywordType(st, k)
    [] at = "V1b"  -> If(IsSym(k, "{"), OpenDecl(st, "service", m.name), st)
    [] at = "OF1b" -> IF IsSym(k, "{") THEN Body([st EXCEPT !.decls[st.cur].oneofs = Append(@, [name |-> m.name, opts |-> <<>>]),
                                                            !.oo = Len(st.decls[st.cur].oneofs) + 1]) ELSE KeywordType(st, k)
    (* rpc *)
    [] at = "RPC1" -> If(IsId(k), [st EXCEPT !.at = "RPC2", !.tmp.name = k.s, !.tmp.tgt = "rin"], st)
    [] at = "RPC2" -> If(IsSym(k, "("), [st EXCEPT !.at = "RPC3", !.tmp.stream = FALSE, !.tmp.lead = FALSE, !.tmp.path = <<>>], st)
    [] at = "RPC3" -> IF IsId(k) /\ k.s = "stream" THEN [st EXCEPT !.at = "RPC4", !.tmp.stream = TRUE]
                      ELSE IF IsSym(k, ".") THEN [st EXCEPT !.at = "T0d", !.tmp.lead = TRUE]
                      ELSE If(IsId(k), [st EXCEPT !.at = "T1", !.tmp.path = <<k.s>>], st)
    [] at = "RPC4" -> IF IsSym(k, ".") THEN [st EXCEPT !.at = "T0d", !.tmp.lead = TRUE]
                      ELSE IF IsId(k) THEN [st EXCEPT !.at = "T1", !.tmp.path = <<k.s>>] ELSE Else(IsSym(k, ")"), st)
    [] at = "RPC5" -> If(IsId(k) /\ k.s = "returns", [st EXCEPT !.at = "RPC2", !.tmp.tgt = "rout"], st)
    [] at = "RPC7" -> IF IsSym(k, ";") THEN AddRpc(st, FALSE) ELSE If(IsSym(k, "{"), AddRpc(st, TRUE), st)
    (* reserved *)
    [] at = "R1" -> IF IsSym(k, "-") THEN (IF Ctx(st) = "enum" THEN Go(st, "R1i") ELSE Unclear(st))
                    ELSE IF k.t = "int" THEN SkipInt(st, k, "R2")
                    ELSE IF k.t = "str" THEN ReadString(st, k, "R5")
                    ELSE IF IsId(k) THEN Go(st, "R5") ELSE NotKeyword(st, k)
    [] at = "R1n" -> IF IsSym(k, "-") THEN (IF Ctx(st) = "enum" THEN Go(st, "R1i") ELSE Unclear(st)) ELSE SkipInt(st, k, "R2")
    [] at = "R1i" -> SkipInt(st, k, "R2")
    [] at = "R2" -> IF IsSym(k, ",") THEN Go(st, "R1n") ELSE IF IsSym(k, ";") THEN Body(st)
                    ELSE If(IsId(k) /\ k.s = "to", Go(st, "R3"), st)
    [] at = "R3" -> IF IsId(k) /\ k.s = "max" THEN Go(st, "R4")
                    ELSE IF IsSym(k, "-") THEN (IF Ctx(st) = "enum" THEN Go(st, "R3i") ELSE Unclear(st)) ELSE SkipInt(st, k, "R4")
    [] at = "R3i" -> SkipInt(st, k, "R4")
    [] at = "R4" -> IF IsSym(k, ",") THEN Go(st, "R1n") ELSE If(IsSym(k, ";"), Body(st), st)
    [] at = "R5" -> IF IsSym(k, ",") THEN Go(st, "R6") ELSE IF IsSym(k, ";") THEN Body(st)
                    ELSE Else(k.t = "str" \/ IsSym(k, "="), st)
    [] at = "R6" -> IF IsId(k) THEN Go(st, "R5") ELSE ReadString(st, k, "R5")
    (* head of a file *)
    [] at = "S0" -> If(IsId(k) /\ k.s = "syntax", Go(st, "S1"), st)
    [] at = "S1" -> If(IsSym(k, "="), Go(st, "S2"), st)
    [] at = "S2" -> If(k.t = "str" /\ k.c = <<112, 114, 111, 116, 111, 51>>, Go(st, "S3"), st)
    [] at = "S3" -> If(IsSym(k, ";"), Body(st), st)
    [] at = "I1" -> IF IsId(k) /\ k.s \in {"weak", "public"} THEN Go(st, "I2")
                    ELSE ReadString(st, k, "I3")
    [] at = "I2" -> ReadString(st, k, "I3")
    [] at = "I3" -> IF IsSym(k, ";") THEN Body(st) ELSE Else(k.t = "str", st)
    [] at = "P1" -> If(IsId(k), [st EXCEPT !.at = "P2", !.tmp.path = <<k.s>>], st)
    [] at = "P2" -> IF IsSym(k, ".") THEN Go(st, "P3")
                    ELSE If(IsSym(k, ";"), Body([st EXCEPT !.pkgs[st.file] = m.path]), st)
    [] at = "P3" -> If(IsId(k), [st EXCEPT !.at = "P2", !.tmp.path = Append(@, k.s)], st)
    [] OTHER -> No(st)

(* At the end of a file: nothing is open. *)
AtEnd(st) == st.ok /\ st.at = "B" /\ st.cur = 0
NextFile(st) == IF AtEnd(st) THEN [st EXCEPT !.at = "S0", !.file = @ + 1, !.pkgs = Append(@, <<>>)] ELSE No(st)

FeedAll(st, toks) == FoldLeft(LAMBDA s, k : Feed(s, k), st, toks)

RECURSIVE ReadFrom(_, _, _)
ReadFrom(st, files, i) ==
  LET s == FeedAll(st, files[i]) IN
  IF i = Len(files) \/ ~s.ok THEN s ELSE ReadFrom(NextFile(s), files, i + 1)
Read(files) == ReadFrom(NewState, files, 1)

(***************************************************************************)
(* What the declarations mean.                                             *)
(***************************************************************************)
Join(p) == IF p = <<>> THEN "" ELSE FoldLeft(LAMBDA a, b : a \o "." \o b, p[1], Tail(p))

RECURSIVE PathOf(_, _)
PathOf(st, i) == LET d == st.decls[i] IN
  Append(IF d.up = 0 THEN st.pkgs[d.file] ELSE PathOf(st, d.up), d.name)

(* paths and full names of all declarations, and the first declaration of each name *)
Index(st) ==
  LET n  == Len(st.decls)
      ps == FoldLeft(LAMBDA acc, d : Append(acc, Append(IF d.up = 0 THEN st.pkgs[d.file] ELSE acc[d.up], d.name)), <<>>, st.decls)
      fn == [i \in 1..n |-> Join(ps[i])]
      all == {fn[i] : i \in 1..n}
  IN  [path |-> ps, fn |-> fn, names |-> all,
       at |-> [s \in all |-> CHOOSE i \in 1..n : fn[i] = s /\ \A j \in 1..(i - 1) : fn[j] # s],
       dups |-> IF Cardinality(all) = n THEN {} ELSE {fn[i] : i \in {k \in 1..n : \E j \in 1..(k - 1) : fn[j] = fn[k]}}]

(* The declaration a type name denotes, 0 when there is none. *)
RECURSIVE Climb(_, _, _)
Climb(ix, scope, name) ==
  LET s == IF scope = <<>> THEN name ELSE Join(scope) \o "." \o name
  IN  IF s \in ix.names THEN ix.at[s]
      ELSE IF scope = <<>> THEN 0
      ELSE Climb(ix, SubSeq(scope, 1, Len(scope) - 1), name)
Resolve(ix, lead, path, scope) ==
  LET name == Join(path) IN
  IF lead THEN (IF name \in ix.names THEN ix.at[name] ELSE 0) ELSE Climb(ix, scope, name)

Builtin == [double |-> "Double", float |-> "Float", int32 |-> "Int32", int64 |-> "Int64", uint32 |-> "UInt32",
            uint64 |-> "UInt64", sint32 |-> "SInt32", sint64 |-> "SInt64", fixed32 |-> "Fixed32", fixed64 |-> "Fixed64",
            sfixed32 |-> "SFixed32", sfixed64 |-> "SFixed64", bool |-> "Bool", string |-> "String", bytes |-> "Bytes"]
IsBuiltin(lead, path) == ~lead /\ Len(path) = 1 /\ path[1] \in DOMAIN Builtin
Written(u) == (IF u.lead THEN "." ELSE "") \o Join(u.path)

PackableTypes == {"Double", "Float", "Int32", "Int64", "UInt32", "UInt64", "SInt32", "SInt64", "Fixed32", "Fixed64",
                  "SFixed32", "SFixed64", "Bool"}

(* "Optional", "Single", "Repeated" or "RepeatedPacked" *)
Multiplicity(f) ==
  CASE f.label = "optional" -> "Optional"
    [] f.label = "single"   -> "Single"
    [] ~IsBuiltin(f.lead, f.path) \/ Builtin[f.path[1]] \notin PackableTypes -> "Repeated"
    [] \E i \in 1..Len(f.opts) : f.opts[i].n = "packed" /\ f.opts[i].v # Const("Bool", FALSE, <<1>>, "") -> "Repeated"
    [] OTHER -> "RepeatedPacked"

Distinct(seq, Key(_)) == Cardinality({Key(seq[i]) : i \in 1..Len(seq)}) = Len(seq)

(* Sources the language does not allow for reasons protofish does not look at: their meaning is open. *)
DeclValid(d) ==
  /\ Distinct(d.fields, LAMBDA f : f.num) /\ Distinct(d.fields, LAMBDA f : f.name)
  /\ Distinct(d.oneofs, LAMBDA o : o.name) /\ Distinct(d.values, LAMBDA v : v.name)
  /\ Distinct(d.rpcs, LAMBDA r : r.name)
  /\ \A i \in 1..Len(d.fields) : Cardinality({k \in 1..Len(d.fields[i].opts) : d.fields[i].opts[k].n = "packed"}) <= 1
  /\ \A i \in 1..Len(d.oneofs) : \E k \in 1..Len(d.fields) : d.fields[k].oo = i
Valid(st) == /\ "reserved" \notin st.flags
             /\ \A i \in 1..Len(st.decls) : DeclValid(st.decls[i])

UsesOf(d) == {[lead |-> f.lead, path |-> f.path, rpc |-> FALSE] : f \in {d.fields[k] : k \in {k \in 1..Len(d.fields) : ~IsBuiltin(d.fields[k].lead, d.fields[k].path)}}}
             \cup {[lead |-> d.rpcs[k].in.lead, path |-> d.rpcs[k].in.path, rpc |-> TRUE] : k \in 1..Len(d.rpcs)}
             \cup {[lead |-> d.rpcs[k].out.lead, path |-> d.rpcs[k].out.path, rpc |-> TRUE] : k \in 1..Len(d.rpcs)}

KindName(k) == CASE k = "message" -> "Message" [] k = "enum" -> "Enum" [] k = "service" -> "Service"

Err(k, name, ctx, actual) == [err |-> k, name |-> name, ctx |-> ctx, actual |-> actual]

(* Every error that would be justified. *)
ErrorsOf(st, ix, i) ==
  UNION {LET t == Resolve(ix, u.lead, u.path, ix.path[i]) IN
         IF t = 0 THEN {Err("notfound", Written(u), ix.fn[i], "")}
         ELSE LET k == st.decls[t].k IN
              IF (u.rpc /\ k # "message") \/ k = "service"
              THEN {Err("kind", Written(u), "", KindName(k))} ELSE {}
         : u \in UsesOf(st.decls[i])}
Errors(st, ix) ==
  {Err("dup", s, "", "") : s \in ix.dups}
  \cup UNION {ErrorsOf(st, ix, i) : i \in {k \in 1..Len(st.decls) : UsesOf(st.decls[k]) # {}}}
  \cup IF st.flags \cap {"literal", "map", "reserved"} # {} THEN {Err("syntax", "", "", "")} ELSE {}
=============================================================================
