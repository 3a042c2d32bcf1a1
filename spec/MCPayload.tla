------------------------------ MODULE MCPayload ------------------------------
(***************************************************************************)
(* For every consistent source read from a file and every message in it:   *)
(* payloads made for its fields, which are printed for the real decoder.   *)
(***************************************************************************)
EXTENDS Payload, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Recs)
K == IF N < 64 THEN N ELSE 64
Lo(k) == ((k - 1) * N) \div K + 1
Hi(k) == (k * N) \div K

(* The events that are not inside of a nested message. *)
Tops(evs) ==
  FoldLeft(LAMBDA q, e : CASE e.t = "E" -> [q EXCEPT !.deep = @ + 1, !.out = IF q.deep = 0 THEN Append(@, e) ELSE @]
                           [] e.t = "L" -> [q EXCEPT !.deep = @ - 1]
                           [] OTHER -> IF q.deep = 0 THEN [q EXCEPT !.out = Append(@, e)] ELSE q,
           [deep |-> 0, out |-> <<>>], evs).out
(* The messages looked at: all of them, or the first and the last ones. *)
Picked(d) == LET n == Len(d.names) IN SelectSeq([i \in 1..n |-> i], LAMBDA i : i <= 8 \/ i > n - 4)

(* Independent of the machine: every field is recognised by the type that its type name resolves to. *)
Recognised(st, ix, d, m) ==
  LET i    == ix.at[m]
      at   == At(d.names, m)
      fs   == Some(SelectSeq(st.decls[i].fields, LAMBDA f : OnWire([n |-> f.num])), 60)
      src  == Whole(d.sch, at)
      evs  == W!Run(d.sch, at, src)
      tops == Tops(evs)
      name(f) == ix.fn[Resolve(ix, f.lead, f.path, ix.path[i])]
  IN  /\ Len(tops) = Len(fs)
      /\ \A k \in 1..Len(fs) :
           LET f == fs[k] e == tops[k] IN
           /\ e.n = f.num
           /\ IF IsBuiltin(f.lead, f.path) THEN e.k = Builtin[f.path[1]] /\ e.t = "F"
              ELSE /\ e.m = name(f)
                   /\ <<e.k, e.t>> = IF st.decls[ix.at[e.m]].k = "enum" THEN <<"Enum", "F">> ELSE <<"Message", "E">>
      /\ W!Encode(evs) = src
(* Nothing but what is declared is recognised, and the packed form is recognised whatever the option says. *)
Strange(d, m) ==
  LET evs == W!Run(d.sch, m, Strangers(d.sch, m)) IN \A i \in 1..(Len(evs) - 1) : evs[i].k = "UVarint"
BothForms(d, m) ==
  LET evs == W!Run(d.sch, m, AllPacked(d.sch, m)) IN \A i \in 1..(Len(evs) - 1) : evs[i].k \in W!PackedKinds

VARIABLES c, l, bad
vars == <<c, l, bad>>
Init == c \in 1..K /\ l = Lo(c) /\ bad = FALSE
Files == Recs[l].files
Cases(d) ==
  LET all(i) == <<Whole(d.sch, i), AllPacked(d.sch, i), Strangers(d.sch, i) \o Whole(d.sch, i)>>
      pick(i) == SelectSeq(all(i), LAMBDA s : s # <<>>)
      is == Picked(d)
  IN  Concat([i \in 1..Len(is) |-> LET p == pick(is[i]) IN [k \in 1..Len(p) |-> [m |-> d.names[is[i]], src |-> p[k]]]])
Next == /\ l <= Hi(c)
        /\ LET d == Declared(Files) IN
           IF ~d.ok THEN bad' = bad
           ELSE LET st == Read(Files) ix == Index(st) IN
                /\ bad' = ~\A i \in {Picked(d)[k] : k \in 1..Len(Picked(d))} : Recognised(st, ix, d, d.names[i]) /\ Strange(d, i) /\ BothForms(d, i)
                /\ PrintT("VEC " \o ToJson([files |-> Files, cases |-> Cases(d)]))
        /\ l' = l + 1 /\ c' = c
Spec == Init /\ [][Next]_vars
Meant == ~bad
=============================================================================
