------------------------------ MODULE Observe ------------------------------
(***************************************************************************)
(* What a context shows of itself through its public interface, and when   *)
(* that is what a set of definitions says.                                 *)
(*                                                                         *)
(* A definition is a record                                                *)
(*   message  [k, name, full, up, inner, fields, oneofs]                   *)
(*   enum     [k, name, full, up, values]                                  *)
(*   service  [k, name, full, up, opts, rpcs]                              *)
(* where up is the full name of the enclosing message ("" at top level)    *)
(* and a set of definitions is a function from full names.                 *)
(* An observation lists, for each probed name, what was found under it.    *)
(***************************************************************************)
EXTENDS Literals, FiniteSets, TLC

Sign(bits) == bits[8] >= 128
Unsigned(bits) == [bits EXCEPT ![8] = @ % 128]
InfBits == <<0, 0, 0, 0, 0, 0, 240, 127>>

(***************************************************************************)
(* Aspects of an observation; each property looks at its own (set A):      *)
(*   struct  names, numbers, membership, what is found and what is not     *)
(*   ref     the types that fields and rpcs refer to                       *)
(*   mult    multiplicities                                                *)
(*   opts    option names and the kinds of their values                    *)
(*   lit     the values of literals                                        *)
(*   graph   parents, inner types, full names and references fit together  *)
(*   agree   fields, oneofs and lookups of one type fit together           *)
(***************************************************************************)
AllAspects == {"struct", "ref", "mult", "opts", "lit", "graph", "agree"}

ConstKindOk(v, o) ==
  CASE v.k \in {"Inf", "Nan", "Float"} -> o.k = "Float"
    [] v.k = "Ident" -> o.k = "Ident" /\ o.s = v.s
    [] OTHER -> o.k = v.k
ConstOk(v, o) ==
  CASE v.k = "Int"   -> o.k = "Int" /\ o.b = I64(v.neg, v.c)
    [] v.k = "Str"   -> o.k = "Str" /\ o.b = v.c
    [] v.k = "Bool"  -> o.k = "Bool" /\ o.b = v.c
    [] v.k = "Ident" -> o.k = "Ident" /\ o.s = v.s
    [] v.k = "Inf"   -> o.k = "Float" /\ Sign(o.b) = v.neg /\ Unsigned(o.b) = InfBits
    [] v.k = "Nan"   -> o.k = "Float" /\ IsNan(o.b)
    [] v.k = "Float" -> LET f == FloatLit(v.c) IN
                        o.k = "Float" /\ Sign(o.b) = v.neg /\ ~IsNan(o.b) /\ Nearest(f.d, f.e, Unsigned(o.b))
OptsOk(A, os, seen) ==
  /\ (A \cap {"opts", "lit"} # {}) => Len(os) = Len(seen)
  /\ "opts" \in A => \A i \in 1..Len(os) : os[i].n = seen[i].n /\ ConstKindOk(os[i].v, seen[i])
  /\ "lit" \in A => \A i \in 1..Len(os) : ConstOk(os[i].v, seen[i])

Named(seq, name) == CHOOSE i \in 1..Len(seq) : seq[i].name = name
HasName(seq, name) == \E i \in 1..Len(seq) : seq[i].name = name

RECURSIVE Below(_, _, _)
Below(a, b, i) == i > 0 /\ (a[i] < b[i] \/ (a[i] = b[i] /\ Below(a, b, i - 1)))
NumLess(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ Below(a, b, Len(a)))

SetOf(seq) == {seq[i] : i \in 1..Len(seq)}
Once(seq) == Cardinality(SetOf(seq)) = Len(seq)

FieldOk(A, f, o) ==
  /\ (A \cap {"struct", "lit"} # {}) => o.num = f.num
  /\ "struct" \in A => o.oo = f.oo
  /\ (A \cap {"struct", "ref"} # {}) => o.ty = f.ty
  /\ "ref" \in A => o.ref = f.ref
  /\ "mult" \in A => o.mult = f.mult
  /\ "graph" \in A => o.refok
  /\ OptsOk(A, f.opts, o.opts)

(* Fields and oneofs agree with each other and with every lookup: this does not depend on a definition. *)
FieldsAgree(o) ==
  /\ \A i \in 1..(Len(o.fields) - 1) : NumLess(o.fields[i].num, o.fields[i + 1].num)
  /\ Cardinality({o.fields[i].name : i \in 1..Len(o.fields)}) = Len(o.fields)
  /\ \A i \in 1..Len(o.fields) : o.fields[i].agree
  /\ Once([i \in 1..Len(o.oneofs) |-> o.oneofs[i].name])
  /\ \A i \in 1..Len(o.oneofs) :
       /\ o.oneofs[i].agree
       /\ Once(o.oneofs[i].nums)
       /\ SetOf(o.oneofs[i].nums) = {o.fields[k].num : k \in {k \in 1..Len(o.fields) : o.fields[k].oo = o.oneofs[i].name}}
  /\ \A i \in 1..Len(o.fields) : o.fields[i].oo = "" \/ HasName(o.oneofs, o.fields[i].oo)
  /\ \A i \in 1..Len(o.bynum) :
       o.bynum[i][2] = IF \E k \in 1..Len(o.fields) : o.fields[k].num = o.bynum[i][1]
                       THEN o.fields[CHOOSE k \in 1..Len(o.fields) : o.fields[k].num = o.bynum[i][1]].name ELSE ""
  /\ \A i \in 1..Len(o.byname) :
       LET has == HasName(o.fields, o.byname[i][1]) IN
       /\ o.byname[i][2] = has
       /\ has => o.byname[i][3] = o.fields[Named(o.fields, o.byname[i][1])].num

NamesOk(A, d, o) ==
  /\ "struct" \in A => o.name = d.name
  /\ (A \cap {"struct", "graph"} # {}) => o.full = d.full
(* Fields and oneofs are those of the definition. *)
MembersOk(A, d, o) ==
  /\ "struct" \in A => Len(o.fields) = Len(d.fields) /\ Len(o.oneofs) = Len(d.oneofs)
  /\ (A \cap {"struct", "ref", "mult", "opts", "lit"} # {}) =>
       /\ \A i \in 1..Len(d.fields) : HasName(o.fields, d.fields[i].name)
                                      /\ FieldOk(A, d.fields[i], o.fields[Named(o.fields, d.fields[i].name)])
       /\ \A i \in 1..Len(d.oneofs) : HasName(o.oneofs, d.oneofs[i].name)
                                      /\ OptsOk(A, d.oneofs[i].opts, o.oneofs[Named(o.oneofs, d.oneofs[i].name)].opts)
  /\ "graph" \in A => \A i \in 1..Len(o.fields) : o.fields[i].refok
  /\ "agree" \in A => FieldsAgree(o)
MessageOk(A, d, o) ==
  /\ o.t = "message" /\ NamesOk(A, d, o)
  /\ (A \cap {"struct", "graph"} # {}) => o.up = d.up /\ SetOf(o.inner) = d.inner
  /\ "graph" \in A => o.selfok /\ Once(o.inner)
  /\ MembersOk(A, d, o)

(* Values may be aliased: one of the aliases is reported. *)
ValuesOk(A, d, o) ==
  /\ (A \cap {"struct", "lit"} # {}) =>
       /\ \A i \in 1..Len(d.values) : \E k \in 1..Len(o.values) : o.values[k].num = d.values[i].num
       /\ \A k \in 1..Len(o.values) :
            LET al == {i \in 1..Len(d.values) : d.values[i].num = o.values[k].num} IN
            IF al = {} THEN ~o.values[k].found
            ELSE /\ o.values[k].found
                 /\ \E i \in al : d.values[i].name = o.values[k].name /\ OptsOk(A, d.values[i].opts, o.values[k].opts)
  /\ "agree" \in A => \A k \in 1..Len(o.values) : o.values[k].agree

EnumOk(A, d, o) ==
  /\ o.t = "enum" /\ NamesOk(A, d, o)
  /\ (A \cap {"struct", "graph"} # {}) => o.up = d.up
  /\ "graph" \in A => o.selfok
  /\ ValuesOk(A, d, o)

ArgOk(A, a, o) == /\ "struct" \in A => o.stream = a.stream
                  /\ "ref" \in A => o.ref = a.ref
                  /\ "graph" \in A => o.refok
RpcOk(A, r, o) == /\ "struct" \in A => o.name = r.name
                  /\ ArgOk(A, r.in, o.in) /\ ArgOk(A, r.out, o.out) /\ OptsOk(A, r.opts, o.opts)
ServiceOk(A, d, o) ==
  /\ o.t = "service" /\ NamesOk(A, d, o)
  /\ OptsOk(A, d.opts, o.opts)
  /\ Len(o.rpcs) = Len(d.rpcs)
  /\ \A i \in 1..Len(d.rpcs) : RpcOk(A, d.rpcs[i], o.rpcs[i])
  /\ "struct" \in A => \A i \in 1..Len(o.byname) :
       o.byname[i][2] = IF \E k \in 1..Len(d.rpcs) : d.rpcs[k].name = o.byname[i][1]
                        THEN CHOOSE k \in 1..Len(d.rpcs) : d.rpcs[k].name = o.byname[i][1] ELSE 0

ItemOk(A, d, p) ==
  CASE d.k = "message" -> MessageOk(A, d, p.ty) /\ p.sv.t = "none"
    [] d.k = "enum"    -> EnumOk(A, d, p.ty) /\ p.sv.t = "none"
    [] d.k = "service" -> ServiceOk(A, d, p.sv) /\ p.ty.t = "none"

(* The package reference of a found top-level item. *)
PkOf(p) == IF p.ty.t = "none" THEN p.sv.pk ELSE p.ty.pk

ProbeOk(A, defs, p) ==
  IF p.q \in DOMAIN defs THEN ItemOk(A, defs[p.q], p) ELSE p.ty.t = "none" /\ p.sv.t = "none"
ContextOk(A, defs, probes) == \A i \in 1..Len(probes) : ProbeOk(A, defs, probes[i])
Complete(defs, probes) == DOMAIN defs \subseteq {probes[i].q : i \in 1..Len(probes)}
BadProbes(A, defs, probes) == {probes[i].q : i \in {k \in 1..Len(probes) : ~ProbeOk(A, defs, probes[k])}}

(* A package lists exactly its top-level types and services, each once.  Listings that were not seen are not judged. *)
ListsOk(defs, lists, probes) ==
  LET top == {p \in SetOf(probes) : p.q \in DOMAIN defs /\ defs[p.q].up = ""} IN
  \A i \in 1..Len(lists) : lists[i].seen =>
    LET of == {p.q : p \in {p \in top : PkOf(p) = lists[i].pk}} IN
    /\ Once(lists[i].types) /\ SetOf(lists[i].types) = {q \in of : defs[q].k # "service"}
    /\ Once(lists[i].services) /\ SetOf(lists[i].services) = {q \in of : defs[q].k = "service"}

(* Items of one file have the same package reference; items of differently named packages do not. *)
PackagesOk(file, pkg, probes) ==
  \A i \in 1..Len(probes) : \A k \in 1..(i - 1) :
    (probes[i].q \in DOMAIN file /\ probes[k].q \in DOMAIN file) =>
      LET a == probes[i] b == probes[k] IN
      /\ (file[a.q] = file[b.q] => PkOf(a) = PkOf(b))
      /\ (pkg[file[a.q]] # pkg[file[b.q]] => PkOf(a) # PkOf(b))
=============================================================================
