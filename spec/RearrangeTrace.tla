-------------------------- MODULE RearrangeTrace --------------------------
(***************************************************************************)
(* Contexts parsed from rearrangements of the same declarations show the   *)
(* same definitions and decode the same, or none of them parses.           *)
(***************************************************************************)
EXTENDS Rearrange, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Recs)
K == IF N < 64 THEN N ELSE 64
Lo(k) == ((k - 1) * N) \div K + 1
Hi(k) == (k * N) \div K

VARIABLES c, l, cov
vars == <<c, l, cov>>
Counters == {"rec", "variants", "parsed", "failed", "decoded", "skipped", "rejected"}
Init == c \in 1..K /\ l = Lo(c) /\ cov = [a \in Counters |-> 0]
Rec == Recs[l]
V == Rec.variants
Base == V[1]

Applies == LET st == Read(Base.files) IN
           /\ AtEnd(st) /\ "map" \notin st.flags /\ Valid(st)
           /\ Assert(\A i \in 2..Len(V) : Rearranged(Base.files, V[i].files), <<"not a rearrangement", Rec.id>>)
AllOrNone == \A i \in 2..Len(V) : V[i].out.ok = Base.out.ok
NoPanic == \A i \in 1..Len(V) : V[i].out.ok \/ V[i].out.err # "panic"
Differ == {i \in 2..Len(V) : Base.out.ok /\ (Projection(V[i].out) # Projection(Base.out) \/ V[i].dec # Base.dec)}

Step ==
  /\ l <= Hi(c)
  /\ IF ~Applies THEN cov' = [cov EXCEPT !["skipped"] = @ + 1]
     ELSE IF AllOrNone /\ NoPanic /\ Differ = {}
     THEN cov' = [cov EXCEPT !["rec"] = @ + 1, !["variants"] = @ + Len(V), !["decoded"] = @ + Len(V) * Len(Base.dec),
                             !["parsed"] = @ + (IF Base.out.ok THEN 1 ELSE 0), !["failed"] = @ + (IF Base.out.ok THEN 0 ELSE 1)]
     ELSE /\ PrintT("REJECT " \o ToJson([id |-> Rec.id, want |-> [act |-> "the same meaning in every arrangement", differ |-> IF AllOrNone THEN Differ ELSE {},
                                                                  outcomes |-> [i \in 1..Len(V) |-> V[i].out.ok]]]))
          /\ cov' = [cov EXCEPT !["rejected"] = @ + 1]
  /\ l' = l + 1 /\ c' = c
Done == /\ l = Hi(c) + 1
        /\ PrintT("CHUNK " \o ToJson([c |-> c, of |-> K, n |-> Hi(c) - Lo(c) + 1, cov |-> cov]))
        /\ l' = l + 1 /\ UNCHANGED <<c, cov>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
