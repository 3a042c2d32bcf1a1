------------------------------ MODULE Members ------------------------------
(***************************************************************************)
(* The members of one message or enum, changed one operation at a time.    *)
(*                                                                         *)
(* message  [fields, oneofs]                                               *)
(*   fields  in order of insertion: [num, name, ty, ref, mult, oo, opts];  *)
(*           oo is the name of the oneof the field belongs to, or ""       *)
(*   oneofs  in order of insertion: [name, opts]                           *)
(* enum     [values], in order of insertion: [num, name, opts]             *)
(*                                                                         *)
(* An operation is refused exactly when it has causes; a refusal names one *)
(* of them and changes nothing.                                            *)
(***************************************************************************)
EXTENDS Observe

NoMembers == [fields |-> <<>>, oneofs |-> <<>>]
NoValues  == [values |-> <<>>]
Refusal(e, n) == [ok |-> FALSE, err |-> e, n |-> n]
Accepted == [ok |-> TRUE, err |-> "", n |-> <<>>]

HasNum(m, n) == \E i \in 1..Len(m.fields) : m.fields[i].num = n
FieldNo(m, n) == m.fields[CHOOSE i \in 1..Len(m.fields) : m.fields[i].num = n]

(* op: [op = "field", num, name, ty, ref, mult, oo (position of a oneof, 0: none), opts] *)
FieldCauses(m, op) ==
  (IF HasNum(m, op.num) THEN {Refusal("number", <<>>)} ELSE {})
  \cup (IF HasName(m.fields, op.name) THEN {Refusal("name", <<>>)} ELSE {})
  \cup (IF op.oo > Len(m.oneofs) THEN {Refusal("oneof", <<>>)} ELSE {})
AddField(m, op) ==
  [m EXCEPT !.fields = Append(@, [num |-> op.num, name |-> op.name, ty |-> op.ty, ref |-> op.ref, mult |-> op.mult,
                                  oo |-> IF op.oo = 0 THEN "" ELSE m.oneofs[op.oo].name, opts |-> op.opts])]

(* op: [op = "oneof", name, nums (fields that become members), opts] *)
OneofCauses(m, op) ==
  (IF HasName(m.oneofs, op.name) THEN {Refusal("name", <<>>)} ELSE {})
  \cup {Refusal("missing", n) : n \in {n \in SetOf(op.nums) : ~HasNum(m, n)}}
  \cup {Refusal("conflict", n) : n \in {n \in SetOf(op.nums) :
          \/ HasNum(m, n) /\ FieldNo(m, n).oo # ""
          \/ Cardinality({i \in 1..Len(op.nums) : op.nums[i] = n}) > 1}}
AddOneof(m, op) ==
  [fields |-> [i \in 1..Len(m.fields) |-> IF m.fields[i].num \in SetOf(op.nums)
                                          THEN [m.fields[i] EXCEPT !.oo = op.name] ELSE m.fields[i]],
   oneofs |-> Append(m.oneofs, [name |-> op.name, opts |-> op.opts])]

(* op: [op = "value", num, name, opts] *)
ValueCauses(m, op) ==
  (IF \E i \in 1..Len(m.values) : m.values[i].num = op.num THEN {Refusal("number", <<>>)} ELSE {})
  \cup (IF HasName(m.values, op.name) THEN {Refusal("name", <<>>)} ELSE {})
AddValue(m, op) == [m EXCEPT !.values = Append(@, [num |-> op.num, name |-> op.name, opts |-> op.opts])]

Causes(m, op) == CASE op.op = "field" -> FieldCauses(m, op)
                   [] op.op = "oneof" -> OneofCauses(m, op)
                   [] op.op = "value" -> ValueCauses(m, op)
Change(m, op) == CASE op.op = "field" -> AddField(m, op)
                   [] op.op = "oneof" -> AddOneof(m, op)
                   [] op.op = "value" -> AddValue(m, op)

(* The results an operation may have, and the members after it. *)
Results(m, op) == IF Causes(m, op) = {} THEN {Accepted} ELSE Causes(m, op)
After(m, op)   == IF Causes(m, op) = {} THEN Change(m, op) ELSE m
AfterAll(m, ops) == FoldLeft(LAMBDA x, op : After(x, op), m, ops)

(***************************************************************************)
(* What is always true of the members of a message.                        *)
(***************************************************************************)
Inj(seq, Key(_)) == Cardinality({Key(seq[i]) : i \in 1..Len(seq)}) = Len(seq)
OneToOne(m) == Inj(m.fields, LAMBDA f : f.num) /\ Inj(m.fields, LAMBDA f : f.name) /\ Inj(m.oneofs, LAMBDA o : o.name)
OneofsExist(m) == \A i \in 1..Len(m.fields) : m.fields[i].oo = "" \/ HasName(m.oneofs, m.fields[i].oo)
=============================================================================
