----------------------------- MODULE MCRebuild -----------------------------
(***************************************************************************)
(* For every source read from a file that can be built by hand: both ways  *)
(* of building it lead to what it means; the insertions are printed.       *)
(***************************************************************************)
EXTENDS Rebuild, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Recs)
K == IF N < 64 THEN N ELSE 64
Lo(k) == ((k - 1) * N) \div K + 1
Hi(k) == (k * N) \div K

VARIABLES c, l, bad
vars == <<c, l, bad>>
Init == c \in 1..K /\ l = Lo(c) /\ bad = FALSE
Files == Recs[l].files
Next == /\ l <= Hi(c)
        /\ LET st == Read(Files) IN
           IF ~Buildable(st) THEN bad' = bad
           ELSE LET ix == Index(st) o1 == OpsOf(st, ix, 1) o2 == OpsOf(st, ix, 2) IN
                /\ bad' = (~Equivalent(st, ix, o1) \/ ~Equivalent(st, ix, o2))
                /\ PrintT("VEC " \o ToJson([files |-> Files, ways |-> IF o1 = o2 THEN <<o1>> ELSE <<o1, o2>>]))
        /\ l' = l + 1 /\ c' = c
Spec == Init /\ [][Next]_vars
Faithful == ~bad
=============================================================================
