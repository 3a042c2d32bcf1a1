----------------------------- MODULE MCMembers -----------------------------
(***************************************************************************)
(* Every history of a few operations on a message and on an enum.          *)
(***************************************************************************)
EXTENDS Members, Json
CONSTANTS Bound, Emit

Nums == {<<1>>, <<2>>}
FieldOps == {[op |-> "field", num |-> n, name |-> s, ty |-> "Int32", ref |-> "", mult |-> "Single", oo |-> o, opts |-> <<>>]
               : n \in Nums \cup {<<>>}, s \in {"a", "b"}, o \in 0..2}
Lists == {<<>>, <<<<1>>>>, <<<<2>>>>, <<<<1>>, <<2>>>>, <<<<2>>, <<1>>>>, <<<<1>>, <<1>>>>, <<<<2>>, <<3>>>>, <<<<>>>>}
OneofOps == {[op |-> "oneof", name |-> s, nums |-> l, opts |-> <<>>] : s \in {"o", "a"}, l \in Lists}
ValueOps == {[op |-> "value", num |-> n, name |-> s, opts |-> <<>>]
               : n \in {<<1,0,0,0,0,0,0,0>>, <<255,255,255,255,255,255,255,255>>, <<0,0,0,0,0,0,0,0>>}, s \in {"a", "b", "c"}}

VARIABLES k, m, ops
vars == <<k, m, ops>>
Init == /\ ops = <<>>
        /\ \/ k = "message" /\ m = NoMembers
           \/ k = "enum" /\ m = NoValues
Next == /\ Len(ops) < Bound + (IF k = "enum" THEN 1 ELSE 0)
        /\ \E op \in (IF k = "enum" THEN ValueOps ELSE FieldOps \cup OneofOps) :
             m' = After(m, op) /\ ops' = Append(ops, op)
        /\ UNCHANGED k
Spec == Init /\ [][Next]_vars

TypeOk == k = "message" => OneToOne(m) /\ OneofsExist(m)
Values == k = "enum" => Inj(m.values, LAMBDA v : v.num) /\ Inj(m.values, LAMBDA v : v.name)
(* A refused operation leaves no trace: the accepted ones alone lead to the same members. *)
Accepting == LET Take(acc, op) == IF Causes(acc.m, op) = {} THEN [m |-> Change(acc.m, op), ops |-> Append(acc.ops, op)] ELSE acc
             IN  FoldLeft(Take, [m |-> IF k = "enum" THEN NoValues ELSE NoMembers, ops |-> <<>>], ops)
Rejections == Accepting.m = m /\ AfterAll(IF k = "enum" THEN NoValues ELSE NoMembers, Accepting.ops) = m
(* Nothing that exists changes, except that a field without a oneof may join a new one. *)
Monotone == [][ k = "message" =>
                 /\ SubSeq(m'.oneofs, 1, Len(m.oneofs)) = m.oneofs
                 /\ Len(m'.fields) >= Len(m.fields)
                 /\ \A i \in 1..Len(m.fields) : [m'.fields[i] EXCEPT !.oo = ""] = [m.fields[i] EXCEPT !.oo = ""]
                                                /\ (m.fields[i].oo # "" => m'.fields[i].oo = m.fields[i].oo) ]_vars
Vectors == (Emit /\ ops # <<>>) => PrintT("VEC " \o ToJson([k |-> k, ops |-> ops]))
=============================================================================
