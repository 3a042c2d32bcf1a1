------------------------------ MODULE History ------------------------------
(***************************************************************************)
(* Contexts in use.  Messages are decoded and encoded, contexts are looked *)
(* at, packages and types are inserted, in any order.                      *)
(*                                                                         *)
(* Contexts belong to groups: those of one group were parsed from the same *)
(* files.  What is decoded is remembered:                                  *)
(*   memo  what was done and with what |-> what came of it                 *)
(*   seen  context |-> what it looked like since the last insertion        *)
(* A message that a group has from the start is the same in all contexts   *)
(* of the group, whatever was inserted since; one that was inserted        *)
(* belongs to its context.  Neither the way through the context or the     *)
(* message, nor the thread, nor anything that happened before, is part of  *)
(* what a result is remembered by.                                         *)
(***************************************************************************)
EXTENDS Registry
W == INSTANCE Wire

(***************************************************************************)
(* A registry as a schema of the wire format.                              *)
(***************************************************************************)
MessagesOf(defs) == SetToSeq({s \in DOMAIN defs : defs[s].k = "message"})
At(seq, x) == CHOOSE i \in 1..Len(seq) : seq[i] = x
FieldSchema(names, f) ==
  [n |-> f.num, ty |-> f.ty, mult |-> f.mult, ref |-> IF f.ty = "Message" THEN At(names, f.ref) ELSE 0,
   en |-> IF f.ty = "Enum" THEN f.ref ELSE ""]
SchemaOf(defs) ==
  LET names == MessagesOf(defs) IN
  [msgs |-> [i \in 1..Len(names) |->
     [name |-> names[i], fields |-> [k \in 1..Len(defs[names[i]].fields) |-> FieldSchema(names, defs[names[i]].fields[k])]]]]
DecodeAs(defs, m, src) == W!Run(SchemaOf(defs), At(MessagesOf(defs), m), src)

(***************************************************************************)
(* Remembering.  groups: context -> group; has: group -> names of messages *)
(* it has from the start.                                                  *)
(***************************************************************************)
Key(groups, has, e) ==
  IF e.m \in has[groups[e.c]] THEN <<e.a, "group", groups[e.c], e.m, e.s>> ELSE <<e.a, "context", e.c, e.m, e.s>>
Fresh(memo, k, r) == k \notin DOMAIN memo \/ memo[k] = r
Remember(memo, k, r) == (k :> r) @@ memo
Nothing == [x \in {} |-> 0]
Forget(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
=============================================================================
