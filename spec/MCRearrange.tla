---------------------------- MODULE MCRearrange ----------------------------
(***************************************************************************)
(* For every source read from a file: its rearrangements declare the same  *)
(* and mean the same; they are printed for the real parser.  The sources   *)
(* come from MCSource (all of a bounded space) or from a generator.        *)
(***************************************************************************)
EXTENDS Rearrange, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Recs)
K == IF N < 64 THEN N ELSE 64
Lo(k) == ((k - 1) * N) \div K + 1
Hi(k) == (k * N) \div K

VARIABLES c, l, bad
vars == <<c, l, bad>>
Init == c \in 1..K /\ l = Lo(c) /\ bad = FALSE
Files == Recs[l].files
Sound == LET st == Read(Files) IN AtEnd(st) /\ "map" \notin st.flags /\ Valid(st) /\ Declared(Files) # <<>>
Variants == LET s == Scatter(Files) IN <<Files, Backwards(Files), s, Backwards(s), Gather(Files), Backwards(Gather(Backwards(Files)))>>
Distinct6(v) == {v[i] : i \in 1..Len(v)}
Next == /\ l <= Hi(c)
        /\ IF ~Sound THEN bad' = bad
           ELSE LET v == Variants IN
                /\ bad' = \E i \in 1..Len(v) : ~Rearranged(Files, v[i]) \/ ~SameMeaning(Files, v[i])
                /\ PrintT("VEC " \o ToJson([variants |-> v]))
        /\ l' = l + 1 /\ c' = c
Spec == Init /\ [][Next]_vars
Preserved == ~bad
=============================================================================
