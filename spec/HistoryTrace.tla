---------------------------- MODULE HistoryTrace ----------------------------
(***************************************************************************)
(* Recorded histories: is everything what it was before?                   *)
(*                                                                         *)
(* A record holds several runs of one history: on contexts of their own,   *)
(* in another process, in another order.  The memory is kept across the    *)
(* runs; what the contexts look like is kept for each run.                 *)
(***************************************************************************)
EXTENDS History, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Recs)
K == IF N < 64 THEN N ELSE 64
Lo(k) == ((k - 1) * N) \div K + 1
Hi(k) == (k * N) \div K

VARIABLES c, l, j, memo, cov
vars == <<c, l, j, memo, cov>>
Counters == {"rec", "run", "dec", "enc", "look", "ins", "refused", "again", "own", "parallel", "repeated", "rejected"}
Init == c \in 1..K /\ l = Lo(c) /\ j = 0 /\ memo = Nothing /\ cov = [a \in Counters |-> 0]
Rec == Recs[l]
Has == [g \in 1..Len(Rec.has) |-> SetOf(Rec.has[g])]

(* a: [memo, seen, cov, bad]; e: one event of the run *)
Use(a, e) ==
  LET k == Key(Rec.groups, Has, e)
      marks == {e.a} \cup (IF k \in DOMAIN a.memo THEN {"again"} ELSE {}) \cup (IF k[2] = "context" THEN {"own"} ELSE {})
               \cup (IF e.t > 0 THEN {"parallel"} ELSE {}) \cup (IF e.times > 1 THEN {"repeated"} ELSE {})
  IN  [a EXCEPT !.memo = Remember(@, k, e.r), !.cov = [x \in Counters |-> IF x \in marks THEN @[x] + 1 ELSE @[x]],
                !.bad = IF Fresh(a.memo, k, e.r) THEN @ ELSE Append(@, [i |-> e.i, was |-> a.memo[k], is |-> e.r])]
Look(a, e) ==
  [a EXCEPT !.seen = Remember(@, e.c, e.r), !.cov["look"] = @ + 1,
            !.bad = IF Fresh(a.seen, e.c, e.r) /\ e.twin THEN @ ELSE Append(@, [i |-> e.i, was |-> "unchanged", is |-> "changed"])]
Insert(a, e) ==
  [a EXCEPT !.seen = Forget(@, e.c), !.cov[IF e.ok THEN "ins" ELSE "refused"] = @ + 1]
Do(a, e) ==
  CASE e.a = "look" -> Look(a, e)
    [] e.a = "ins"  -> Insert(a, e)
    [] OTHER        -> Use(a, e)

Run == /\ l <= Hi(c) /\ j < Len(Rec.runs)
       /\ LET a == FoldLeft(LAMBDA x, e : Do(x, e), [memo |-> memo, seen |-> Nothing, cov |-> cov, bad |-> <<>>], Rec.runs[j + 1])
          IN  IF Rec.fate = "" /\ a.bad = <<>>
              THEN /\ memo' = a.memo /\ cov' = [a.cov EXCEPT !["run"] = @ + 1] /\ j' = j + 1 /\ UNCHANGED <<c, l>>
              ELSE /\ PrintT("REJECT " \o ToJson([id |-> Rec.id, want |-> [run |-> j + 1, act |-> "as before", bad |-> a.bad]]))
                   /\ cov' = [cov EXCEPT !["rejected"] = @ + 1]
                   /\ memo' = Nothing /\ j' = 0 /\ l' = l + 1 /\ c' = c
NextRec == /\ l <= Hi(c) /\ j = Len(Rec.runs)
           /\ memo' = Nothing /\ j' = 0 /\ l' = l + 1 /\ c' = c /\ cov' = [cov EXCEPT !["rec"] = @ + 1]
Done == /\ l = Hi(c) + 1
        /\ PrintT("CHUNK " \o ToJson([c |-> c, of |-> K, n |-> Hi(c) - Lo(c) + 1, cov |-> cov]))
        /\ l' = l + 1 /\ UNCHANGED <<c, j, memo, cov>>
Next == Run \/ NextRec \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
