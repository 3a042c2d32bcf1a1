------------------------------ MODULE Rebuild ------------------------------
(***************************************************************************)
(* The insertions that build by hand what a source declares: its packages, *)
(* then its messages and enums in the order of declaration, each with its  *)
(* members.  Oneofs are added before the fields that join them (way 1) or  *)
(* after all fields, with the numbers of their members (way 2).            *)
(***************************************************************************)
EXTENDS Registry, Meaning

(* a < b for little-endian byte strings of one length: at the highest place where they differ *)
LtBytes(a, b) == \E i \in 1..Len(a) : a[i] < b[i] /\ \A k \in (i + 1)..Len(a) : a[k] = b[k]
Ascending(d) ==
  \A i \in 1..Len(d.fields) : \A k \in (i + 1)..Len(d.fields) :
    (d.fields[i].oo # 0 /\ d.fields[i].oo = d.fields[k].oo) =>
      LtBytes(Resize(d.fields[i].num, 8), Resize(d.fields[k].num, 8))
NoOptions(d) == /\ \A i \in 1..Len(d.fields) : d.fields[i].opts = <<>>
                /\ \A i \in 1..Len(d.oneofs) : d.oneofs[i].opts = <<>>
                /\ \A i \in 1..Len(d.values) : d.values[i].opts = <<>>
Buildable(st) ==
  /\ AtEnd(st)
  /\ Class(st, Index(st), Errors(st, Index(st))) = "consistent"
  /\ Cardinality({st.pkgs[i] : i \in 1..Len(st.pkgs)}) = Len(st.pkgs)
  /\ \A i \in 1..Len(st.decls) : LET d == st.decls[i] IN
       /\ d.k # "service" /\ NoOptions(d) /\ Ascending(d)
       /\ Distinct(d.values, LAMBDA v : v.num)

FieldOp(st, ix, i, f, oo) ==
  LET d == FieldDef(st, ix, i, f) IN
  [op |-> "field", num |-> d.num, name |-> d.name, ty |-> d.ty, ref |-> d.ref, mult |-> d.mult, oo |-> oo, opts |-> <<>>]
MemberOps(st, ix, i, way) ==
  LET d == st.decls[i]
      oneofs(nums(_)) == [k \in 1..Len(d.oneofs) |-> [op |-> "oneof", name |-> d.oneofs[k].name, nums |-> nums(k), opts |-> <<>>]]
      fields(oo(_)) == [k \in 1..Len(d.fields) |-> FieldOp(st, ix, i, d.fields[k], oo(d.fields[k]))]
      none(k) == <<>>
      its(k) == LET js == SelectSeq([x \in 1..Len(d.fields) |-> x], LAMBDA x : d.fields[x].oo = k)
                IN  [y \in 1..Len(js) |-> d.fields[js[y]].num]
  IN  IF d.k = "enum" THEN [k \in 1..Len(d.values) |-> [op |-> "value", num |-> d.values[k].num, name |-> d.values[k].name, opts |-> <<>>]]
      ELSE IF way = 1 THEN oneofs(none) \o fields(LAMBDA f : f.oo) ELSE fields(LAMBDA f : 0) \o oneofs(its)
OpsOf(st, ix, way) ==
  [i \in 1..Len(st.pkgs) |-> [op |-> "package", name |-> Join(st.pkgs[i])]]
  \o [i \in 1..Len(st.decls) |->
       LET d == st.decls[i] IN
       [op |-> "type", k |-> d.k, name |-> d.name,
        in |-> IF d.up = 0 THEN "pkg" ELSE "msg",
        up |-> IF d.up = 0 THEN Join(st.pkgs[d.file]) ELSE ix.fn[d.up],
        members |-> MemberOps(st, ix, i, way)]]

(* The insertions lead to what the source means.  Types may refer to types that are inserted later. *)
Rebuilt(ops) == FoldLeft(LAMBDA r, op : AfterOp(r, op), NoContext, ops)
Equivalent(st, ix, ops) ==
  LET r == Rebuilt(ops) IN
  /\ r.defs = Defs(st, ix)
  /\ r.pkgs = [i \in 1..Len(st.pkgs) |-> Join(st.pkgs[i])]
  /\ Consistent(r)
=============================================================================
