------------------------------ MODULE Meaning ------------------------------
(***************************************************************************)
(* From the declarations of a source to the definitions a context shows.   *)
(***************************************************************************)
EXTENDS Lexer, Observe

OneofName(d, f) == IF f.oo = 0 THEN "" ELSE d.oneofs[f.oo].name

FieldDef(st, ix, i, f) ==
  LET b == IsBuiltin(f.lead, f.path)
      t == IF b THEN 0 ELSE Resolve(ix, f.lead, f.path, ix.path[i])
  IN  [num |-> f.num, name |-> f.name, mult |-> Multiplicity(f), oo |-> OneofName(st.decls[i], f), opts |-> f.opts,
       ty |-> IF b THEN Builtin[f.path[1]] ELSE KindName(st.decls[t].k),
       ref |-> IF b THEN "" ELSE ix.fn[t]]

ArgDef(ix, i, a) == [stream |-> a.stream, ref |-> ix.fn[Resolve(ix, a.lead, a.path, ix.path[i])]]

Def(st, ix, i) ==
  LET d  == st.decls[i]
      up == IF d.up = 0 THEN "" ELSE ix.fn[d.up]
      base == [k |-> d.k, name |-> d.name, full |-> ix.fn[i], up |-> up]
  IN  CASE d.k = "message" ->
             [fields |-> [k \in 1..Len(d.fields) |-> FieldDef(st, ix, i, d.fields[k])],
              oneofs |-> d.oneofs,
              inner |-> {ix.fn[j] : j \in {j \in 1..Len(st.decls) : st.decls[j].up = i}}] @@ base
        [] d.k = "enum" -> [values |-> d.values] @@ base
        [] d.k = "service" ->
             [opts |-> d.opts,
              rpcs |-> [k \in 1..Len(d.rpcs) |-> [name |-> d.rpcs[k].name, in |-> ArgDef(ix, i, d.rpcs[k].in),
                                                   out |-> ArgDef(ix, i, d.rpcs[k].out), opts |-> d.rpcs[k].opts]]] @@ base

(* Only for consistent sources without errors. *)
Defs(st, ix) == [s \in ix.names |-> Def(st, ix, ix.at[s])]
FileOf(st, ix) == [s \in {s \in ix.names : st.decls[ix.at[s]].up = 0} |-> st.decls[ix.at[s]].file]

(***************************************************************************)
(* The verdict on an observed outcome of parsing.                          *)
(***************************************************************************)
Class(st, ix, errs) ==
  IF "unclear" \in st.flags THEN "open"
  ELSE IF ~AtEnd(st) THEN "malformed"
  ELSE IF "map" \in st.flags \/ ~Valid(st) THEN "open"
  ELSE IF errs # {} THEN "inconsistent" ELSE "consistent"

(* What each property looks at. *)
Aspects(p) ==
  CASE p = "C11" -> AllAspects
    [] p = "C12" -> {"ref"}
    [] p = "C13" -> {}
    [] p = "C15" -> {"struct", "opts"}
    [] p = "C16" -> {"graph", "ref"}
    [] p = "C18" -> {"agree"}
    [] p = "C20" -> {"lit", "opts"}
    [] p = "C21" -> {"mult"}
    [] OTHER -> AllAspects

ErrOk(st, ix, errs, out) ==
  IF "literal" \in st.flags THEN out.err # "panic"
  ELSE \E e \in errs :
         /\ out.err = e.err
         /\ out.name = e.name \/ (e.err = "kind" /\ out.name \in ix.names /\ st.decls[ix.at[out.name]].k # "message")
         /\ (e.err = "notfound" => out.ctx = e.ctx)
         /\ (e.err = "kind" => out.actual = e.actual)

OutcomeOk(p, st, ix, errs, out) ==
  LET c == Class(st, ix, errs) IN
  CASE c = "malformed" /\ p = "C24" -> ~out.ok /\ (out.err = "syntax" \/ (st.file > 1 /\ out.err # "panic"))
    [] c \in {"malformed", "open"} -> out.ok \/ out.err # "panic"
    [] c = "inconsistent" ->
         CASE p \in {"C13", "all"} -> ~out.ok /\ ErrOk(st, ix, errs, out)
           [] p = "C12" -> (errs # {} /\ \A e \in errs : e.err \in {"notfound", "kind"}) => ~out.ok
           [] p = "C20" -> "literal" \in st.flags => ~out.ok
           [] OTHER -> out.ok \/ out.err # "panic"
    [] c = "consistent" ->
         IF p \in {"C16", "C18"} /\ ~out.ok THEN out.err # "panic"
         ELSE /\ out.ok
              /\ Aspects(p) # {} =>
                   LET defs == Defs(st, ix) IN
                   /\ ContextOk(Aspects(p), defs, out.probes) /\ Complete(defs, out.probes)
                   /\ "graph" \in Aspects(p) => ListsOk(defs, out.lists, out.probes)
              /\ p \in {"C11", "C16", "all"} => PackagesOk(FileOf(st, ix), st.pkgs, out.probes)

(* The same for an outcome without the definitions. *)
VerdictOk(p, st, ix, errs, out) ==
  LET c == Class(st, ix, errs) IN
  CASE c = "malformed" /\ p = "C24" -> ~out.ok /\ (out.err = "syntax" \/ (st.file > 1 /\ out.err # "panic"))
    [] c = "inconsistent" /\ p \in {"C13", "all"} -> ~out.ok /\ ErrOk(st, ix, errs, out)
    [] c = "consistent" /\ p \in {"C11", "C13", "C15", "all"} -> out.ok
    [] OTHER -> out.ok \/ out.err # "panic"

Want(p, st, ix, errs, out) ==
  LET c == Class(st, ix, errs) IN
  [class |-> c, at |-> st.at, ok |-> st.ok, errs |-> IF c = "inconsistent" THEN errs ELSE {},
   bad |-> IF c = "consistent" /\ out.ok THEN BadProbes(Aspects(p), Defs(st, ix), out.probes) ELSE {},
   missing |-> IF c = "consistent" /\ out.ok THEN ix.names \ {out.probes[i].q : i \in 1..Len(out.probes)} ELSE {}]
=============================================================================
