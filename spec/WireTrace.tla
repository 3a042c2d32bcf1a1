----------------------------- MODULE WireTrace -----------------------------
(***************************************************************************)
(* Is what the real library was seen doing a behaviour of Wire?            *)
(*                                                                         *)
(* The trace is cut into chunks that are explained independently (one      *)
(* initial state each), which is what lets TLC use all its workers.        *)
(* A decode ("dec") is explained event by event: each event has to be the  *)
(* one the decoder machine's next step emits.  Records that relate several *)
(* executions are explained in one step by the relation their kind names.  *)
(* A record that cannot be explained is printed and skipped, so the rest   *)
(* of the trace is still checked.                                          *)
(***************************************************************************)
EXTENDS Wire, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)
Schs == ndJsonDeserialize(IOEnv.TRACE \o ".sch")
N == Len(Recs)
K == IF N < 64 THEN N ELSE 64
Lo(k) == ((k - 1) * N) \div K + 1
Hi(k) == (k * N) \div K

VARIABLES c,     \* chunk
          l,     \* record being explained
          j,     \* event of a "dec" record being explained; 0: not begun
          st,    \* the decoder machine
          cov    \* steps taken, by action
vars == <<c, l, j, st, cov>>

Idle == [stack |-> <<>>, pos |-> 0]
NoCov == [a \in Acts \cup {"rec", "cut", "cutat", "nest", "pack", "cat", "elems", "enc", "canonical", "c09", "c10", "out", "skipped", "rejected"} |-> 0]

Init == /\ c \in 1..K
        /\ l = Lo(c) /\ j = 0 /\ st = Idle /\ cov = NoCov

Rec == Recs[l]
Sch == Schs[Rec.s]
Bump(a) == cov' = [cov EXCEPT ![a] = @ + 1]
Bump2(a, b) == cov' = [cov EXCEPT ![a] = @ + 1, ![b] = @ + 1]
NextRec == l' = l + 1 /\ j' = 0 /\ st' = Idle /\ c' = c

Reject(want) == /\ PrintT("REJECT " \o ToJson([id |-> Rec.id, want |-> want]))
                /\ Bump("rejected") /\ NextRec

(***************************************************************************)
(* Decodes, event by event.                                                *)
(***************************************************************************)
BeginDec ==
  /\ l <= Hi(c) /\ Rec.kind = "dec" /\ j = 0
  /\ IF Rec.root = Sch.msgs[Rec.m].name
       THEN st' = Start(Rec.m, Rec.src) /\ j' = 1 /\ UNCHANGED <<c, l>> /\ Bump("rec")
       ELSE Reject([root |-> Sch.msgs[Rec.m].name])

StepDec ==
  /\ l <= Hi(c) /\ j > 0 /\ ~Finished(st)
  /\ LET r == StepOf(Sch, Rec.src, st)
     IN  IF j <= Len(Rec.ev) /\ r.ev = Rec.ev[j]
           THEN st' = Apply(st, r) /\ j' = j + 1 /\ UNCHANGED <<c, l>> /\ Bump(r.act)
           ELSE Reject([at |-> j, act |-> r.act, event |-> r.ev])

EndDec ==
  /\ l <= Hi(c) /\ j > 0 /\ Finished(st)
  /\ IF j = Len(Rec.ev) + 1 THEN NextRec /\ UNCHANGED cov
     ELSE Reject([at |-> j, act |-> "End"])

(***************************************************************************)
(* Relations.                                                              *)
(***************************************************************************)

(* C01: the only outcome of a decode is a returned value, the same in both builds, of bounded size. *)
OutOk == Rec.ok /\ Rec.rok /\ Rec.digest = Rec.rdigest /\ Rec.nev <= Rec.len + 1

(* C02 *)
EncOk == IF Canonical(Sch, Rec.m, Rec.src) THEN Rec.enc = Rec.src ELSE Rec.same

(* C05: Rec.cuts[i + 1] is the decode of the first i bytes. *)
CutsOk ==
  LET full == Rec.cuts[Len(Rec.cuts)]
      sp   == Spans(Sch, Rec.m, Rec.src)
  IN  /\ Len(Rec.cuts) = Len(Rec.src) + 1
      /\ \A i \in 1..Len(sp) : sp[i].last <= Len(full)
      /\ \A i \in 0..Len(Rec.src) : CutOkAt(sp, Rec.src, full, i, Rec.cuts[i + 1])
FirstBadCut ==
  LET full == Rec.cuts[Len(Rec.cuts)]
      sp   == Spans(Sch, Rec.m, Rec.src)
  IN  IF \E i \in 1..Len(sp) : sp[i].last > Len(full) THEN [cut |-> Len(Rec.src)]
      ELSE [cut |-> CHOOSE i \in 0..Len(Rec.src) :
              /\ ~CutOkAt(sp, Rec.src, full, i, Rec.cuts[i + 1])
              /\ \A k \in 0..(i - 1) : CutOkAt(sp, Rec.src, full, k, Rec.cuts[k + 1])]

(* The same for some cuts of a long payload: Rec.cuts[k] is the decode of its first Rec.at[k] bytes. *)
CutAtOk(sp, k) == CutOkAt(sp, Rec.src, Rec.full, Rec.at[k], Rec.cuts[k])
CutsAtOk == LET sp == Spans(Sch, Rec.m, Rec.src)
            IN  /\ \A i \in 1..Len(sp) : sp[i].last <= Len(Rec.full)
                /\ \A k \in 1..Len(Rec.at) : CutAtOk(sp, k)

(* C06, C07 *)
Wrapped(n, body) == Tag(n, 2) \o LenPrefixed(body)
NestApplies == AtBoundary(Sch, Rec.m, Rec.a)
NestRecOk ==
  /\ Rec.whole = Rec.a \o Wrapped(Rec.n, Rec.inner) \o Rec.c
  /\ NestOk(Rec.n, Sch.msgs[Rec.im].name, Rec.ea, Rec.ei, Rec.ec, Rec.ew)

PackMiddle ==
  LET r == ReadPacked(Rec.ty, Rec.body, 1, Len(Rec.body))
  IN  IF r.ok THEN EvPacked(Rec.n, "P" \o Rec.ty, r.vs)
      ELSE EvField(Rec.n, "Incomplete", 2, LenPrefixed(Rec.body))
PackRecOk ==
  /\ Rec.whole = Rec.a \o Wrapped(Rec.n, Rec.body) \o Rec.c
  /\ Rec.ew = Body(Rec.ea) \o <<PackMiddle>> \o Rec.ec

CatApplies == AtBoundary(Sch, Rec.m, Rec.a)
CatRecOk == ConcatOk(Rec.ea, Rec.eb, Rec.eab)

(* C08: one packed array, and its elements as separate fields. *)
ElemsOk ==
  LET k == Len(Rec.es) - 1 IN
  /\ Len(Rec.ep) = 2
  /\ Rec.ep[1].k = "P" \o Rec.ty /\ Rec.ep[1].n = Rec.n
  /\ Len(Rec.ep[1].vs) = k
  /\ \A i \in 1..k : Rec.es[i] = EvField(Rec.n, Rec.ty, WireOf(Rec.ty), Rec.ep[1].vs[i])

(* C09, C10 *)
RoundTripOk == Rec.ev = Rec.given /\ Rec.eq
EncodeOk == Rec.enc = Encode(Rec.given)

Relation(k, applies, ok, want) ==
  /\ l <= Hi(c) /\ j = 0 /\ Rec.kind = k
  /\ IF ~applies THEN Bump("skipped") /\ NextRec
     ELSE IF ok THEN Bump2("rec", k) /\ NextRec
     ELSE Reject(want)

Panicked == l <= Hi(c) /\ j = 0 /\ Rec.kind = "panic" /\ Reject([act |-> "return", panic |-> Rec.msg])

Related ==
  \/ Relation("out", TRUE, OutOk, [act |-> "return the same value in both builds"])
  \/ /\ l <= Hi(c) /\ j = 0 /\ Rec.kind = "enc"
     /\ LET canon == Canonical(Sch, Rec.m, Rec.src)
        IN  IF IF canon THEN Rec.enc = Rec.src ELSE Rec.same
            THEN /\ IF canon THEN Bump2("enc", "canonical") ELSE Bump("enc")
                 /\ NextRec
            ELSE Reject([canonical |-> canon])
  \/ Relation("cut", TRUE, CutsOk, FirstBadCut)
  \/ Relation("cutat", TRUE, CutsAtOk, [act |-> "the fields before the cut"])
  \/ Relation("nest", NestApplies, NestRecOk, [act |-> "same fields around and inside"])
  \/ Relation("pack", NestApplies, PackRecOk, [event |-> PackMiddle])
  \/ Relation("cat", CatApplies, CatRecOk, [act |-> "fields of a, then of b"])
  \/ Relation("elems", TRUE, ElemsOk, [act |-> "equal elements"])
  \/ Relation("c09", TRUE, RoundTripOk, [act |-> "equal value"])
  \/ Relation("c10", TRUE, EncodeOk, [enc |-> Encode(Rec.given)])

Done == /\ l = Hi(c) + 1 /\ j = 0
        /\ PrintT("CHUNK " \o ToJson([c |-> c, of |-> K, n |-> Hi(c) - Lo(c) + 1, cov |-> cov]))
        /\ l' = l + 1 /\ UNCHANGED <<c, j, st, cov>>

Next == BeginDec \/ StepDec \/ EndDec \/ Related \/ Panicked \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
