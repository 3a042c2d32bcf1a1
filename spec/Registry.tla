------------------------------ MODULE Registry ------------------------------
(***************************************************************************)
(* A context changed one operation at a time.                              *)
(*                                                                         *)
(*   pkgs  the package names, in order; "" is the package without a name,  *)
(*         "-" the one whose name is empty                                 *)
(*   defs  full name -> definition (see Observe)                           *)
(*   top   full name of a top-level item -> its package name               *)
(*                                                                         *)
(* Full names identify items: an insertion is refused exactly when the     *)
(* full name is taken.                                                     *)
(***************************************************************************)
EXTENDS Members

NoContext == [pkgs |-> <<>>, defs |-> [x \in {} |-> 0], top |-> [x \in {} |-> ""]]

FullIn(pkg, name) == IF pkg = "" THEN name ELSE pkg \o "." \o name

(* op: [op = "package", name] *)
HasPkg(r, p) == \E i \in 1..Len(r.pkgs) : r.pkgs[i] = p
AddPkg(r, p) == IF HasPkg(r, p) THEN r ELSE [r EXCEPT !.pkgs = Append(@, p)]

(* op: [op = "type", k, name, in ("pkg" or "msg"), up (package or message name), members (operations)] *)
FullOf(op) == IF op.in = "pkg" THEN FullIn(op.up, op.name) ELSE op.up \o "." \o op.name
Taken(r, s) == s \in DOMAIN r.defs
NewDef(op) ==
  LET base == [k |-> op.k, name |-> op.name, full |-> FullOf(op), up |-> IF op.in = "pkg" THEN "" ELSE op.up]
  IN  IF op.k = "message" THEN [inner |-> {}] @@ AfterAll(NoMembers, op.members) @@ base
      ELSE AfterAll(NoValues, op.members) @@ base
AddType(r, op) ==
  LET full == FullOf(op)
      d1   == IF op.in = "pkg" THEN r.defs ELSE [r.defs EXCEPT ![op.up].inner = @ \cup {full}]
  IN  IF Taken(r, full) THEN r
      ELSE [r EXCEPT !.defs = (full :> NewDef(op)) @@ d1,
                     !.top  = IF op.in = "pkg" THEN (full :> op.up) @@ @ ELSE @]

AfterOp(r, op) == IF op.op = "package" THEN AddPkg(r, op.name) ELSE AddType(r, op)

(***************************************************************************)
(* What is always true of a context.                                       *)
(***************************************************************************)
Consistent(r) ==
  \A s \in DOMAIN r.defs :
    LET d == r.defs[s] IN
    /\ d.full = s
    /\ IF d.up = "" THEN s \in DOMAIN r.top /\ HasPkg(r, r.top[s]) /\ s = FullIn(r.top[s], d.name)
       ELSE /\ d.up \in DOMAIN r.defs /\ r.defs[d.up].k = "message"
            /\ s \in r.defs[d.up].inner /\ s = d.up \o "." \o d.name
    /\ d.k = "message" => /\ \A x \in d.inner : x \in DOMAIN r.defs /\ r.defs[x].up = s
                          /\ \A i \in 1..Len(d.fields) : d.fields[i].ref # "" => d.fields[i].ref \in DOMAIN r.defs
                          /\ OneToOne(d) /\ OneofsExist(d)
(* Nothing that exists changes, except that a message gets further inner types. *)
Kept(r, q) ==
  /\ SubSeq(q.pkgs, 1, Len(r.pkgs)) = r.pkgs
  /\ \A s \in DOMAIN r.defs :
       /\ s \in DOMAIN q.defs
       /\ IF r.defs[s].k = "message" THEN r.defs[s].inner \subseteq q.defs[s].inner /\ [q.defs[s] EXCEPT !.inner = {}] = [r.defs[s] EXCEPT !.inner = {}]
          ELSE q.defs[s] = r.defs[s]
=============================================================================
