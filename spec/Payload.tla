------------------------------ MODULE Payload ------------------------------
(***************************************************************************)
(* What the bytes of a message mean when the types come from sources: the  *)
(* meaning of the sources is the schema of the wire format's machine.      *)
(***************************************************************************)
EXTENDS History, Meaning

(* [ok, names, sch]: the schema that consistent sources declare. *)
Declared(files) ==
  LET st == Read(files) ix == Index(st) errs == Errors(st, ix) IN
  IF Class(st, ix, errs) # "consistent" THEN [ok |-> FALSE, names |-> <<>>, sch |-> [msgs |-> <<>>]]
  ELSE LET defs == Defs(st, ix) IN [ok |-> TRUE, names |-> MessagesOf(defs), sch |-> SchemaOf(defs)]

Decoded(d, m, src) == W!Run(d.sch, At(d.names, m), src)

(***************************************************************************)
(* A payload with every declared field in it, in its own form.             *)
(***************************************************************************)
(* Numbers that fit a tag. *)
OnWire(f) == f.n # <<>> /\ (Len(f.n) < 8 \/ (Len(f.n) = 8 /\ f.n[8] < 32))
Sample(ty) ==
  CASE ty = "Bool" -> <<1>>
    [] W!WireOf(ty) = 0 -> <<129, 1>>
    [] W!WireOf(ty) = 1 -> <<1, 2, 3, 4, 5, 6, 7, 8>>
    [] W!WireOf(ty) = 5 -> <<9, 8, 7, 6>>
    [] ty = "String" -> <<3, 195, 169, 33>>
    [] ty = "Bytes" -> <<2, 255, 0>>
Some(seq, k) == SubSeq(seq, 1, IF Len(seq) < k THEN Len(seq) ELSE k)

RECURSIVE Occurrence(_, _, _), Content(_, _, _, _)
Occurrence(sch, f, d) ==
  W!Tag(f.n, W!WireOf(f.ty)) \o
  (IF f.ty # "Message" THEN Sample(f.ty)
   ELSE W!LenPrefixed(IF d = 0 THEN <<>> ELSE Content(sch, f.ref, d - 1, 3)))
(* The first k fields of message m, nested messages d levels deep. *)
Content(sch, m, d, k) ==
  LET fs == Some(SelectSeq(sch.msgs[m].fields, OnWire), k)
  IN  Concat([i \in 1..Len(fs) |-> Occurrence(sch, fs[i], d)])
PackedOccurrence(f) == W!Tag(f.n, 2) \o W!LenPrefixed(Sample(f.ty) \o Sample(f.ty))

Whole(sch, m) == Content(sch, m, 2, 60)
(* The same with the packed form wherever there is one. *)
AllPacked(sch, m) ==
  LET fs == Some(SelectSeq(sch.msgs[m].fields, LAMBDA f : OnWire(f) /\ W!Packable(f.ty) /\ W!Repeated(f.mult)), 60)
  IN  Concat([i \in 1..Len(fs) |-> PackedOccurrence(fs[i])])
(* Neighbours of the declared numbers, under which nothing is declared. *)
Following(n) == LET b == Resize(n, 8)
                i == CHOOSE i \in 1..8 : b[i] # 255 /\ \A j \in 1..(i - 1) : b[j] = 255
            IN  Trim([j \in 1..8 |-> IF j < i THEN 0 ELSE IF j = i THEN b[j] + 1 ELSE b[j]])
Strangers(sch, m) ==
  LET fs == Some(SelectSeq(sch.msgs[m].fields, OnWire), 20)
      ns == SelectSeq([i \in 1..Len(fs) |-> [n |-> Following(fs[i].n)]],
                      LAMBDA x : OnWire(x) /\ W!FieldIdx(sch, m, x.n) = 0)
  IN  Concat([i \in 1..Len(ns) |-> W!Tag(ns[i].n, 0) \o <<7>>])
=============================================================================
