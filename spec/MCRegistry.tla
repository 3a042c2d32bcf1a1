----------------------------- MODULE MCRegistry -----------------------------
(***************************************************************************)
(* Every history of a few insertions, into an empty context or into one    *)
(* that was parsed.                                                        *)
(***************************************************************************)
EXTENDS Registry, Meaning, Json
CONSTANTS Bound, Emit

Syn == <<Id("syntax"), Sym("="), StrT(<<112, 114, 111, 116, 111, 51>>), Sym(";")>>
Base1 == <<Syn \o <<Id("package"), Id("a"), Sym(";"),
           Id("message"), Id("x"), Sym("{"), Id("message"), Id("y"), Sym("{"), Sym("}"),
                 Id("x"), Id("f"), Sym("="), IntT(<<49>>), Sym(";"), Sym("}"),
           Id("enum"), Id("z"), Sym("{"), Id("V"), Sym("="), IntT(<<48>>), Sym(";"), Sym("}"),
           Id("service"), Id("S"), Sym("{"), Id("rpc"), Id("R"), Sym("("), Id("x"), Sym(")"), Id("returns"), Sym("("), Id("x"), Sym("."), Id("y"), Sym(")"), Sym(";"), Sym("}")>>,
           Syn \o <<Id("message"), Id("y"), Sym("{"), Sym("}")>>>>
Bases == {<<>>, Base1}

FromSource(files) ==
  IF files = <<>> THEN NoContext
  ELSE LET st == Read(files) ix == Index(st) IN
       [pkgs |-> [i \in 1..Len(st.pkgs) |-> Join(st.pkgs[i])], defs |-> Defs(st, ix),
        top |-> [s \in {s \in ix.names : st.decls[ix.at[s]].up = 0} |-> Join(st.pkgs[st.decls[ix.at[s]].file])]]

VARIABLES base, r, ops
vars == <<base, r, ops>>

Msgs == {s \in DOMAIN r.defs : r.defs[s].k = "message"}
(* The content refers to one existing type, when there is one. *)
Content(k) ==
  IF k = "enum" THEN {<<>>, <<[op |-> "value", num |-> <<1,0,0,0,0,0,0,0>>, name |-> "V", opts |-> <<>>]>>}
  ELSE LET plain == [op |-> "field", num |-> <<1>>, name |-> "f", ty |-> "Int32", ref |-> "", mult |-> "Single", oo |-> 0, opts |-> <<>>]
           To(s) == [plain EXCEPT !.num = <<2>>, !.name = "g", !.ty = KindName(r.defs[s].k), !.ref = s]
           types == {s \in DOMAIN r.defs : r.defs[s].k # "service"}
       IN  IF types = {} THEN {<<plain>>} ELSE {<<To(s)>> : s \in types}
PkgOps == {[op |-> "package", name |-> p] : p \in {"", "-", "a", "a.x"}}
TypeOps ==
  UNION {UNION {{[op |-> "type", k |-> k, name |-> n, in |-> w.in, up |-> w.up, members |-> c] : c \in Content(k)}
          : n \in {"x", "y", "S"}, k \in {"message", "enum"}}
         : w \in {[in |-> "pkg", up |-> r.pkgs[i]] : i \in {i \in 1..Len(r.pkgs) : r.pkgs[i] # "-"}} \cup {[in |-> "msg", up |-> s] : s \in Msgs}}

Init == base \in Bases /\ r = FromSource(base) /\ ops = <<>>
Next == /\ Len(ops) < Bound + (IF base = <<>> THEN 1 ELSE 0)
        /\ \E op \in PkgOps \cup TypeOps : r' = AfterOp(r, op) /\ ops' = Append(ops, op)
        /\ UNCHANGED base
Spec == Init /\ [][Next]_vars

Sane == Consistent(r)
Stable == [][Kept(r, r')]_vars
Refused == [][ LET op == ops'[Len(ops')] IN
               IF op.op = "package" THEN (r' = r) <=> HasPkg(r, op.name)
               ELSE (r' = r) <=> FullOf(op) \in DOMAIN r.defs ]_vars
Vectors == (Emit /\ ops # <<>>) => PrintT("VEC " \o ToJson([files |-> base, ops |-> ops]))
=============================================================================
