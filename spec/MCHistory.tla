----------------------------- MODULE MCHistory -----------------------------
(***************************************************************************)
(* Every short history of three contexts, two of them parsed from the same *)
(* files, decoding with the machine of the wire format.                    *)
(***************************************************************************)
EXTENDS History, Meaning, Json
CONSTANTS Bound, Emit

Syn == <<Id("syntax"), Sym("="), StrT(<<112, 114, 111, 116, 111, 51>>), Sym(";")>>
Msg(n, body) == <<Id("message"), Id(n), Sym("{")>> \o body \o <<Sym("}")>>
Fld(ty, n, k) == <<Id(ty), Id(n), Sym("="), IntT(<<48 + k>>), Sym(";")>>
Rep(ty, n, k) == <<Id("repeated")>> \o Fld(ty, n, k)
Enm(n) == <<Id("enum"), Id(n), Sym("{"), Id(n \o "0"), Sym("="), IntT(<<48>>), Sym(";"), Sym("}")>>
P == Syn \o <<Id("package"), Id("p"), Sym(";")>>
(* The same places mean different things: the first message and its first fields differ. *)
Group == <<
  <<P \o Msg("M", Fld("int32", "a", 1) \o Fld("N", "b", 2) \o Fld("E", "c", 3)) \o Msg("N", Fld("string", "s", 1)) \o Enm("E")>>,
  <<P \o Msg("N", Fld("sint64", "a", 1) \o Rep("M", "b", 2)) \o Enm("F") \o Msg("M", Rep("sint32", "a", 1) \o Fld("F", "c", 2))>> >>
Groups == <<1, 1, 2>>
Srcs == << <<8, 3, 18, 2, 10, 0, 24, 1>>, <<10, 2, 5, 6, 18, 4, 8, 1, 16, 2>> >>

FromSource(files) ==
  LET st == Read(files) ix == Index(st) IN
  [pkgs |-> [i \in 1..Len(st.pkgs) |-> Join(st.pkgs[i])], defs |-> Defs(st, ix),
   top |-> [s \in {s \in ix.names : st.decls[ix.at[s]].up = 0} |-> Join(st.pkgs[st.decls[ix.at[s]].file])]]
Parsed == [g \in 1..2 |-> FromSource(Group[g])]
Has == [g \in 1..2 |-> {s \in DOMAIN Parsed[g].defs : Parsed[g].defs[s].k = "message"}]

ASSUME PrintT("GRP " \o ToJson([groups |-> Groups, files |-> Group, has |-> [g \in 1..2 |-> SetToSeq(Has[g])], srcs |-> Srcs]))

VARIABLES r, memo, ops
vars == <<r, memo, ops>>
C == 1..Len(Groups)
Msgs(c) == {s \in DOMAIN r[c].defs : r[c].defs[s].k = "message"}

Field1 == [op |-> "field", num |-> <<1>>, name |-> "f", ty |-> "Message", ref |-> "p.M", mult |-> "Single", oo |-> 0, opts |-> <<>>]
NewTypes == {[op |-> "type", k |-> "message", name |-> "A", in |-> "pkg", up |-> "p", members |-> <<Field1>>],
             [op |-> "type", k |-> "message", name |-> "N", in |-> "msg", up |-> "p.M", members |-> <<[Field1 EXCEPT !.ty = "Bool", !.ref = ""]>>]}

Decode(c, m, s, via) ==
  LET e == [a |-> "dec", c |-> c, m |-> m, s |-> s, via |-> via] IN
  /\ memo' = Remember(memo, Key(Groups, Has, e), DecodeAs(r[c].defs, m, Srcs[s]))
  /\ ops' = Append(ops, e) /\ UNCHANGED r
Encode(c, m, s) ==
  LET e == [a |-> "enc", c |-> c, m |-> m, s |-> s] IN
  /\ memo' = Remember(memo, Key(Groups, Has, e), W!Encode(DecodeAs(r[c].defs, m, Srcs[s])))
  /\ ops' = Append(ops, e) /\ UNCHANGED r
Look(c) == ops' = Append(ops, [a |-> "look", c |-> c]) /\ UNCHANGED <<r, memo>>
Insert(c, op) ==
  /\ ops' = Append(ops, [a |-> "ins", c |-> c, op |-> op])
  /\ r' = [r EXCEPT ![c] = AfterOp(@, op)] /\ UNCHANGED memo

Init == r = [c \in C |-> Parsed[Groups[c]]] /\ memo = Nothing /\ ops = <<>>
Next == /\ Len(ops) < Bound
        /\ \E c \in C :
             \/ \E m \in Msgs(c), s \in 1..Len(Srcs) :
                  \/ \E via \in {"ctx", "msg"} : Decode(c, m, s, via)
                  \/ s = 1 /\ Encode(c, m, s)
             \/ Look(c)
             \/ \E op \in NewTypes : Insert(c, op)
Spec == Init /\ [][Next]_vars

(* What was once decoded is decoded again and again. *)
Functional == [][\A k \in DOMAIN memo : memo'[k] = memo[k]]_vars
(* The groups are not alike: the same payload is something else in the other one. *)
Sane == \A c \in C : Consistent(r[c])
Unlike == /\ DecodeAs(Parsed[1].defs, "p.M", Srcs[1]) # DecodeAs(Parsed[2].defs, "p.M", Srcs[1])
          /\ DecodeAs(Parsed[1].defs, "p.M", Srcs[2]) # DecodeAs(Parsed[1].defs, "p.N", Srcs[2])
(* Of every history only one where a decode follows something else than a decode of the same is worth a replay. *)
Vectors == (Emit /\ Len(ops) = Bound) => PrintT("VEC " \o ToJson([ops |-> ops]))
=============================================================================
