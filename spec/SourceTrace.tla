---------------------------- MODULE SourceTrace ----------------------------
(***************************************************************************)
(* Is what Context::parse was seen doing what the sources mean?            *)
(* One record per step; chunks are explained independently.                *)
(***************************************************************************)
EXTENDS Meaning, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)
P == IF "PROPERTY" \in DOMAIN IOEnv THEN IOEnv.PROPERTY ELSE "all"
N == Len(Recs)
K == IF N < 64 THEN N ELSE 64
Lo(k) == ((k - 1) * N) \div K + 1
Hi(k) == (k * N) \div K

VARIABLES c, l, cov
vars == <<c, l, cov>>
Counters == {"rec", "malformed", "open", "inconsistent", "consistent", "dup", "notfound", "kind", "literal",
             "layouts", "decls", "fields", "same", "chars", "rejected"}

Init == c \in 1..K /\ l = Lo(c) /\ cov = [a \in Counters |-> 0]
Rec == Recs[l]
Skip == l' = l + 1 /\ c' = c

Count(st, cls, errs) ==
  [a \in Counters |-> cov[a] + CASE a = "rec" -> 1 [] a = cls -> 1
     [] a = "literal" -> (IF "literal" \in st.flags THEN 1 ELSE 0)
     [] a \in {"dup", "notfound", "kind"} -> (IF cls = "inconsistent" /\ \E e \in errs : e.err = a THEN 1 ELSE 0)
     [] a = "decls" -> Len(st.decls)
     [] a = "fields" -> FoldLeft(LAMBDA x, d : x + Len(d.fields), 0, st.decls)
     [] OTHER -> 0]

(* A text, read character by character. *)
CharsRead ==
  /\ l <= Hi(c) /\ Rec.kind = "chars"
  /\ LET st   == ReadTexts(Rec.files)
         end  == AtEnd(st)
         ix   == IF end THEN Index(st) ELSE [names |-> {}]
         errs == IF end THEN Errors(st, ix) ELSE {}
         cls  == Class(st, ix, errs)
     IN  IF VerdictOk(P, st, ix, errs, Rec.out)
         THEN cov' = [Count(st, cls, errs) EXCEPT !["chars"] = @ + 1]
         ELSE /\ PrintT("REJECT " \o ToJson([id |-> Rec.id, want |-> [class |-> cls, at |-> st.at, errs |-> errs]]))
              /\ cov' = [cov EXCEPT !["rejected"] = @ + 1]
  /\ Skip

(* The characters a layout of some tokens consists of are read as these tokens. *)
LayoutOk == "bytes" \in DOMAIN Rec =>
  \A i \in 1..Len(Rec.bytes) : \A k \in 1..Len(Rec.files) :
    LET x == Lex(Rec.bytes[i][k]) IN x.ok /\ ~x.unclear /\ x.toks = Rec.files[k]

(* One source, parsed in one or several layouts: the outcome is what it means, and the same in every layout. *)
Parse ==
  /\ l <= Hi(c) /\ Rec.kind = "parse"
  /\ LET st   == Read(Rec.files)
         end  == AtEnd(st)
         ix   == IF end THEN Index(st) ELSE [names |-> {}]
         errs == IF end THEN Errors(st, ix) ELSE {}
         cls  == Class(st, ix, errs)
     IN  IF /\ \A i \in 1..Len(Rec.outs) : OutcomeOk(P, st, ix, errs, Rec.outs[i])
            /\ (cls = "consistent" /\ P \in {"C15", "all"}) => Len(Rec.outs) = 1
            /\ Assert(LayoutOk, <<"layout", Rec.id>>)
         THEN cov' = Count(st, cls, errs)
         ELSE /\ PrintT("REJECT " \o ToJson([id |-> Rec.id, want |->
                   [layouts |-> Len(Rec.outs), each |-> [i \in 1..Len(Rec.outs) |-> Want(P, st, ix, errs, Rec.outs[i])]]]))
              /\ cov' = [cov EXCEPT !["rejected"] = @ + 1]
  /\ Skip

(* Two observations that have to agree whatever they are. *)
Same ==
  /\ l <= Hi(c) /\ Rec.kind = "same"
  /\ IF Rec.a = Rec.b THEN cov' = [cov EXCEPT !["same"] = @ + 1, !["rec"] = @ + 1]
     ELSE /\ PrintT("REJECT " \o ToJson([id |-> Rec.id, want |-> [act |-> "equal observations"]]))
          /\ cov' = [cov EXCEPT !["rejected"] = @ + 1]
  /\ Skip

(* A text of which nothing is known: any outcome but a crash. *)
Text ==
  /\ l <= Hi(c) /\ Rec.kind = "text"
  /\ IF Rec.out \in {"ok", "err"} THEN cov' = [cov EXCEPT !["rec"] = @ + 1, !["open"] = @ + 1]
     ELSE /\ PrintT("REJECT " \o ToJson([id |-> Rec.id, want |-> [act |-> "return a context or an error"]]))
          /\ cov' = [cov EXCEPT !["rejected"] = @ + 1]
  /\ Skip

Done == /\ l = Hi(c) + 1
        /\ PrintT("CHUNK " \o ToJson([c |-> c, of |-> K, n |-> Hi(c) - Lo(c) + 1, cov |-> cov]))
        /\ l' = l + 1 /\ UNCHANGED <<c, cov>>
Next == Parse \/ CharsRead \/ Same \/ Text \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
