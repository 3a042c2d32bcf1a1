---------------------------- MODULE RebuildTrace ----------------------------
(***************************************************************************)
(* Contexts built by hand, next to the parsed one.                         *)
(***************************************************************************)
EXTENDS Rebuild, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Recs)
K == IF N < 64 THEN N ELSE 64
Lo(k) == ((k - 1) * N) \div K + 1
Hi(k) == (k * N) \div K

VARIABLES c, l, cov
vars == <<c, l, cov>>
Counters == {"rec", "way1", "way2", "messages", "enums", "nested", "oneofs", "decoded", "rejected"}
Init == c \in 1..K /\ l = Lo(c) /\ cov = [a \in Counters |-> 0]
Rec == Recs[l]

(* Every insertion is accepted, the contexts are equal both ways round, they look the same and decode the same. *)
Ok == /\ Rec.fate = "" /\ Rec.accepted /\ Rec.eq /\ Rec.qe /\ Rec.looks
      /\ \A i \in 1..Len(Rec.dec) : Rec.dec[i].hand = Rec.dec[i].parsed
      /\ Assert(Buildable(Read(Rec.files)), "not buildable")
Count == LET d == Read(Rec.files).decls
             num(P(_)) == Cardinality({i \in 1..Len(d) : P(d[i])}) IN
         [a \in Counters |-> cov[a] + CASE a = "rec" -> 1 [] a = "way1" -> (IF Rec.way = 1 THEN 1 ELSE 0)
            [] a = "way2" -> (IF Rec.way = 2 THEN 1 ELSE 0) [] a = "decoded" -> Len(Rec.dec)
            [] a = "messages" -> num(LAMBDA x : x.k = "message") [] a = "enums" -> num(LAMBDA x : x.k = "enum")
            [] a = "nested" -> num(LAMBDA x : x.up # 0) [] a = "oneofs" -> num(LAMBDA x : x.oneofs # <<>>) [] OTHER -> 0]
Step ==
  /\ l <= Hi(c)
  /\ IF Ok THEN cov' = Count
     ELSE /\ PrintT("REJECT " \o ToJson([id |-> Rec.id, want |-> [act |-> "an equal context"]]))
          /\ cov' = [cov EXCEPT !["rejected"] = @ + 1]
  /\ l' = l + 1 /\ c' = c
Done == /\ l = Hi(c) + 1
        /\ PrintT("CHUNK " \o ToJson([c |-> c, of |-> K, n |-> Hi(c) - Lo(c) + 1, cov |-> cov]))
        /\ l' = l + 1 /\ UNCHANGED <<c, cov>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
