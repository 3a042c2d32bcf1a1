----------------------------- MODULE Rearrange -----------------------------
(***************************************************************************)
(* The same declarations, spread differently over files.                   *)
(*                                                                         *)
(* A file is a sequence of top-level statements.  What it declares is a    *)
(* bag of declarations, each with the package statement of its file; file  *)
(* options, imports and empty statements declare nothing.  Two lists of    *)
(* files are rearrangements of each other when they declare the same bag.  *)
(***************************************************************************)
EXTENDS Meaning

(* The top-level statements of a file: a statement ends with ";" or "}" outside of all braces. *)
Split(toks) ==
  FoldLeft(LAMBDA a, k :
      LET d   == IF IsSym(k, "{") THEN a.depth + 1 ELSE IF IsSym(k, "}") THEN a.depth - 1 ELSE a.depth
          now == Append(a.now, k)
      IN  IF d = 0 /\ (IsSym(k, ";") \/ IsSym(k, "}"))
          THEN [depth |-> 0, now |-> <<>>, out |-> Append(a.out, now)]
          ELSE [depth |-> d, now |-> now, out |-> a.out],
    [depth |-> 0, now |-> <<>>, out |-> <<>>], toks).out

IsDecl(s) == IsId(s[1]) /\ s[1].s \in {"message", "enum", "service"}
PackageOf(stmts) ==
  LET at == {i \in 1..Len(stmts) : stmts[i][1] = Id("package")} IN
  IF at = {} THEN <<>> ELSE stmts[CHOOSE i \in at : TRUE]

(* The declarations of a list of files, in order: [pkg, toks]. *)
Declared(files) ==
  FoldLeft(LAMBDA acc, f : LET s == Split(f) p == PackageOf(s) IN
             acc \o [i \in 1..Len(SelectSeq(s, IsDecl)) |-> [pkg |-> p, toks |-> SelectSeq(s, IsDecl)[i]]],
           <<>>, files)
BagOf(seq) == LET S == {seq[i] : i \in 1..Len(seq)} IN [x \in S |-> Cardinality({i \in 1..Len(seq) : seq[i] = x})]
Rearranged(a, b) == BagOf(Declared(a)) = BagOf(Declared(b))

(* One declaration per file. *)
Head4 == <<Id("syntax"), Sym("="), StrT(<<112, 114, 111, 116, 111, 51>>), Sym(";")>>
Scatter(files) == LET d == Declared(files) IN [i \in 1..Len(d) |-> Head4 \o d[i].pkg \o d[i].toks]
(* All declarations of a package in the file where the package first appears. *)
Gather(files) ==
  LET d == Declared(files)
      ps == {d[i].pkg : i \in 1..Len(d)}
      first(p) == CHOOSE i \in 1..Len(d) : d[i].pkg = p /\ \A k \in 1..(i - 1) : d[k].pkg # p
      heads == {first(p) : p \in ps}
      seq == FoldLeft(LAMBDA acc, i : IF i \in heads THEN Append(acc, d[i].pkg) ELSE acc, <<>>, [i \in 1..Len(d) |-> i])
  IN  [k \in 1..Len(seq) |->
         FoldLeft(LAMBDA acc, x : IF x.pkg = seq[k] THEN acc \o x.toks ELSE acc, Head4 \o seq[k], d)]
Backwards(files) == [i \in 1..Len(files) |-> files[Len(files) + 1 - i]]

(***************************************************************************)
(* What a rearrangement preserves.                                         *)
(***************************************************************************)
SameMeaning(a, b) ==
  LET sa == Read(a) sb == Read(b) ia == Index(sa) ib == Index(sb) ea == Errors(sa, ia) eb == Errors(sb, ib) IN
  /\ AtEnd(sa) /\ AtEnd(sb)
  /\ ia.names = ib.names /\ ia.dups = ib.dups
  /\ (ea = {}) = (eb = {})
  /\ ia.dups = {} => ea = eb
  /\ ea = {} => Defs(sa, ia) = Defs(sb, ib)

(* An observation without what may depend on the arrangement: the identity of package references and the order of inner types. *)
Plain(p) ==
  [q |-> p.q,
   ty |-> CASE p.ty.t = "message" -> [p.ty EXCEPT !.pk = 0, !.inner = SetOf(p.ty.inner)]
            [] p.ty.t = "enum"    -> [p.ty EXCEPT !.pk = 0]
            [] OTHER -> p.ty,
   sv |-> IF p.sv.t = "none" THEN p.sv ELSE [p.sv EXCEPT !.pk = 0]]
Projection(out) == [i \in 1..Len(out.probes) |-> Plain(out.probes[i])]
=============================================================================
