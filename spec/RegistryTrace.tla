--------------------------- MODULE RegistryTrace ---------------------------
(***************************************************************************)
(* Are the recorded histories of modifications behaviours of Members and   *)
(* Registry?  One record per history; TLC follows it operation by          *)
(* operation, so a record takes as many steps as it has operations.        *)
(***************************************************************************)
EXTENDS Registry, Meaning, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)
P == IF "PROPERTY" \in DOMAIN IOEnv THEN IOEnv.PROPERTY ELSE "all"
N == Len(Recs)
K == IF N < 64 THEN N ELSE 64
Lo(k) == ((k - 1) * N) \div K + 1
Hi(k) == (k * N) \div K

VARIABLES c, l, j, s, cov   \* chunk, record, operation (0: not begun), members or context, counters
vars == <<c, l, j, s, cov>>
Counters == {"rec", "field", "oneof", "value", "package", "message", "enum", "accepted", "refused", "number", "name", "missing",
             "conflict", "exists", "parsed", "seen", "kept", "open", "rejected"}
Init == c \in 1..K /\ l = Lo(c) /\ j = 0 /\ s = <<>> /\ cov = [a \in Counters |-> 0]
Rec == Recs[l]
Bump(set) == cov' = [a \in Counters |-> IF a \in set THEN cov[a] + 1 ELSE cov[a]]
NextRec == l' = l + 1 /\ j' = 0 /\ s' = <<>> /\ c' = c
Reject(want) == PrintT("REJECT " \o ToJson([id |-> Rec.id, want |-> want])) /\ Bump({"rejected"}) /\ NextRec

(* What the property looks at in an observation, and whether it cares about results. *)
A == CASE P = "C16" -> {"graph", "ref"} [] P = "C17" -> {"struct", "ref", "mult"} [] P = "C18" -> {"struct", "agree"}
       [] OTHER -> AllAspects
Judged == P \in {"C17", "all"}

(***************************************************************************)
(* One type.                                                               *)
(***************************************************************************)
BeginMembers ==
  /\ l <= Hi(c) /\ Rec.kind = "members" /\ j = 0
  /\ IF Rec.fate # "" THEN Reject([act |-> "no panic"])
     ELSE /\ s' = IF Rec.k = "message" THEN NoMembers ELSE NoValues
          /\ j' = 1 /\ Bump({"rec"}) /\ UNCHANGED <<c, l>>
StepMembers ==
  /\ l <= Hi(c) /\ Rec.kind = "members" /\ j > 0 /\ j <= Len(Rec.ops)
  /\ LET op == Rec.ops[j]
         res == Rec.res[j]
         can == Results(s, op)
         \* C18 follows the operations that were accepted, whether or not they should have been.
         to  == IF Judged \/ res \in can THEN After(s, op) ELSE s
     IN  IF Judged /\ (res \notin can \/ ~Rec.eq[j]) THEN Reject([at |-> j, act |-> "result", results |-> can, untouched |-> Rec.eq[j]])
         ELSE IF ~Judged /\ res \notin can
              THEN IF Rec.k = "message" /\ DOMAIN Rec.obs[j] # {} /\ ~FieldsAgree(Rec.obs[j]) THEN Reject([at |-> j, act |-> "agreement"])
                   ELSE Bump({"open"}) /\ NextRec
         ELSE IF DOMAIN Rec.obs[j] = {}                    \* long histories are not looked at after every operation
         THEN s' = to /\ j' = j + 1 /\ UNCHANGED <<c, l>> /\ Bump({op.op} \cup (IF res.ok THEN {"accepted"} ELSE {"refused", res.err}))
         ELSE IF (IF Rec.k = "message" THEN MembersOk(A, to, Rec.obs[j]) ELSE ValuesOk(A, to, Rec.obs[j]))
         THEN /\ s' = to /\ j' = j + 1 /\ UNCHANGED <<c, l>>
              /\ Bump({op.op, "seen"} \cup (IF res.ok THEN {"accepted"} ELSE {"refused", res.err}))
         ELSE Reject([at |-> j, act |-> "members", members |-> to])

(***************************************************************************)
(* One context.                                                            *)
(***************************************************************************)
Source0 == Read(Rec.files)
Base == IF Rec.files = <<>> THEN NoContext
        ELSE LET st == Source0 ix == Index(st) IN
             [pkgs |-> [i \in 1..Len(st.pkgs) |-> Join(st.pkgs[i])], defs |-> Defs(st, ix),
              top |-> [x \in {x \in ix.names : st.decls[ix.at[x]].up = 0} |-> Join(st.pkgs[st.decls[ix.at[x]].file])]]
BaseUsable == Rec.files = <<>> \/ (LET st == Source0 IN AtEnd(st) /\ LET ix == Index(st) IN Class(st, ix, Errors(st, ix)) = "consistent")

See(r, probes) == probes = <<>> \/ (ContextOk(A, r.defs, probes) /\ {x \in DOMAIN r.defs : TRUE} \subseteq {probes[i].q : i \in 1..Len(probes)})
(* Items of one package share its reference; different packages have different ones. *)
PkgsOk(r, probes) ==
  \A i \in 1..Len(probes) : \A k \in 1..(i - 1) :
    (probes[i].q \in DOMAIN r.top /\ probes[k].q \in DOMAIN r.top /\ r.top[probes[i].q] # r.top[probes[k].q]) =>
      PkOf(probes[i]) # PkOf(probes[k])

BeginRegistry ==
  /\ l <= Hi(c) /\ Rec.kind = "registry" /\ j = 0
  /\ IF Rec.fate = "panic" THEN Reject([act |-> "no panic"])
     ELSE IF Rec.fate = "unparsed" \/ ~BaseUsable THEN Bump({"open"}) /\ NextRec
     ELSE IF "graph" \in A /\ ~ListsOk(Base.defs, Rec.lists, Rec.first) THEN Reject([act |-> "packages of the parsed context"])
     ELSE IF ~See(Base, Rec.first) THEN Reject([act |-> "parsed context", bad |-> BadProbes(A, Base.defs, Rec.first)])
     ELSE /\ s' = Base /\ j' = 1 /\ UNCHANGED <<c, l>>
          /\ Bump({"rec"} \cup IF Rec.files = <<>> THEN {} ELSE {"parsed"})

PackageResult(op, res) ==
  /\ res.ok = ~HasPkg(s, op.name)
  /\ res.ok => res.names = <<>>                          \* a reference no other package has
  /\ ~res.ok => SetOf(res.names) \subseteq {op.name}     \* the existing package's reference
TypeResult(op, res) ==
  LET full == FullOf(op) IN
  IF Taken(s, full) THEN ~res.ok /\ res.full = full /\ res.k = s.defs[full].k
  ELSE res.ok /\ res.full = full /\ res.k = op.k
(* C16 only looks at what the references denote. *)
RefResult(op, res) ==
  IF op.op = "package" THEN res.ok => res.names = <<>>
  ELSE res.ok => (res.full = FullOf(op) /\ res.k = op.k)
HeldOk(r, held) == \A i \in 1..Len(held) : /\ held[i][2] = held[i][1]
                                           /\ held[i][1] \in DOMAIN r.defs /\ held[i][3] = r.defs[held[i][1]].k
StepRegistry ==
  /\ l <= Hi(c) /\ Rec.kind = "registry" /\ j > 0 /\ j <= Len(Rec.ops)
  /\ LET op == Rec.ops[j]
         e  == Rec.steps[j]
         r  == AfterOp(s, op)
         exact == IF op.op = "package" THEN PackageResult(op, e.res) ELSE TypeResult(op, e.res)
         diverged == e.res.ok # (r # s)
     IN  IF Judged /\ ~(exact /\ e.eq) THEN Reject([at |-> j, act |-> "result", changes |-> r # s, untouched |-> e.eq])
         ELSE IF ~RefResult(op, e.res) THEN Reject([at |-> j, act |-> "reference"])
         ELSE IF diverged THEN Bump({"open"}) /\ NextRec
         ELSE IF ~HeldOk(r, e.held) THEN Reject([at |-> j, act |-> "references handed out earlier"])
         ELSE IF ~See(r, e.probes) THEN Reject([at |-> j, act |-> "context", bad |-> BadProbes(A, r.defs, e.probes)])
         ELSE IF "graph" \in A /\ ~(PkgsOk(r, e.probes) /\ ListsOk(r.defs, e.lists, e.probes)) THEN Reject([at |-> j, act |-> "packages"])
         ELSE /\ s' = r /\ j' = j + 1 /\ UNCHANGED <<c, l>>
              /\ Bump({IF op.op = "package" THEN "package" ELSE op.k, "kept"}
                      \cup (IF e.res.ok THEN {"accepted"} ELSE {"refused", "exists"}) \cup (IF e.probes = <<>> THEN {} ELSE {"seen"}))

End == /\ l <= Hi(c) /\ j > Len(Rec.ops) /\ NextRec /\ UNCHANGED cov
Done == /\ l = Hi(c) + 1
        /\ PrintT("CHUNK " \o ToJson([c |-> c, of |-> K, n |-> Hi(c) - Lo(c) + 1, cov |-> cov]))
        /\ l' = l + 1 /\ UNCHANGED <<c, j, s, cov>>
Next == BeginMembers \/ StepMembers \/ BeginRegistry \/ StepRegistry \/ End \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
