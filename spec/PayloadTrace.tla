---------------------------- MODULE PayloadTrace ----------------------------
(***************************************************************************)
(* Sources that were parsed, and payloads decoded and encoded again in the *)
(* parsed context: is that what the sources and the bytes mean?            *)
(***************************************************************************)
EXTENDS Payload, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Recs)
K == IF N < 64 THEN N ELSE 64
Lo(k) == ((k - 1) * N) \div K + 1
Hi(k) == (k * N) \div K

VARIABLES c, l, cov
vars == <<c, l, cov>>
Counters == {"rec", "skipped", "decoded", "nested", "enums", "packed", "unknown", "damaged", "several", "absent", "rejected"}
Init == c \in 1..K /\ l = Lo(c) /\ cov = [a \in Counters |-> 0]
Rec == Recs[l]

(* One decode: what it should have been, or what is wrong with it. *)
CaseOk(d, x) ==
  LET i == At(d.names, x.m) evs == W!Run(d.sch, i, x.src)
  IN  x.root = x.m /\ x.ev = evs /\ x.enc = W!Encode(evs)
Bad(d) == {k \in 1..Len(Rec.dec) : ~CaseOk(d, Rec.dec[k])}
Wanted(d) ==
  IF Rec.fate # "" THEN [fate |-> "a parsed context in which messages are decoded"]
  ELSE LET k == CHOOSE k \in Bad(d) : \A j \in Bad(d) : k <= j
           x == Rec.dec[k]
           evs == W!Run(d.sch, At(d.names, x.m), x.src)
       IN  [case |-> k, m |-> x.m, ev |-> evs, enc |-> W!Encode(evs)]
Count(d) ==
  LET ev == Concat([k \in 1..Len(Rec.dec) |-> Rec.dec[k].ev])
      num(P(_)) == Cardinality({k \in 1..Len(ev) : P(ev[k])}) IN
  [a \in Counters |-> cov[a] + CASE a = "rec" -> 1 [] a = "decoded" -> Len(Rec.dec)
     [] a = "nested" -> num(LAMBDA e : e.t = "E") [] a = "enums" -> num(LAMBDA e : e.k = "Enum")
     [] a = "packed" -> num(LAMBDA e : e.k \in W!PackedKinds)
     [] a = "unknown" -> num(LAMBDA e : e.k \in {"UVarint", "UFixed64", "UFixed32", "UBytes"})
     [] a = "damaged" -> num(LAMBDA e : e.k \in {"Incomplete", "UInvalid"} \/ (e.t = "L" /\ e.w = 1))
     [] a = "several" -> (IF Len(Rec.files) > 1 THEN 1 ELSE 0)
     [] OTHER -> 0]
Step ==
  /\ l <= Hi(c)
  /\ LET d == Declared(Rec.files) IN
     IF ~d.ok THEN cov' = [cov EXCEPT !["skipped"] = @ + 1]
     ELSE IF Rec.fate = "" /\ Bad(d) = {} THEN cov' = Count(d)
     ELSE /\ PrintT("REJECT " \o ToJson([id |-> Rec.id, want |-> Wanted(d)]))
          /\ cov' = [cov EXCEPT !["rejected"] = @ + 1]
  /\ l' = l + 1 /\ c' = c
Done == /\ l = Hi(c) + 1
        /\ PrintT("CHUNK " \o ToJson([c |-> c, of |-> K, n |-> Hi(c) - Lo(c) + 1, cov |-> cov]))
        /\ l' = l + 1 /\ UNCHANGED <<c, cov>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
