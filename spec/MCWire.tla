------------------------------- MODULE MCWire -------------------------------
(***************************************************************************)
(* The decoder machine on every payload over a small byte alphabet, and on *)
(* every short concatenation of hand-picked pieces, for a set of schemas.  *)
(* Payloads are built byte by byte (piece by piece) by the environment,    *)
(* then decoded step by step.  The properties of the wire format are       *)
(* invariants and temporal properties of this machine; finished behaviours *)
(* are printed as vectors for the real decoder.                            *)
(***************************************************************************)
EXTENDS Wire, Json, IOUtils

CONSTANTS Alphabet,     \* bytes
          MaxBytes,     \* payload length when built from bytes
          MaxPieces,    \* payload length when built from pieces
          Emit          \* print vectors

F(n, ty, mult, ref, en) == [n |-> n, ty |-> ty, mult |-> mult, ref |-> ref, en |-> en]
M(name, fields) == [name |-> name, fields |-> fields]

Schemas == <<
  [msgs |-> <<M("M1", <<F(<<1>>, "Int32", "Single", 0, ""), F(<<2>>, "Message", "Single", 1, "")>>)>>],
  [msgs |-> <<M("M1", <<F(<<1>>, "SInt64", "RepeatedPacked", 0, ""), F(<<2>>, "String", "Repeated", 0, "")>>)>>],
  [msgs |-> <<M("M1", <<F(<<1>>, "Message", "Repeated", 2, ""), F(<<2>>, "Enum", "Single", 0, "E1")>>),
              M("M2", <<F(<<1>>, "Bool", "Repeated", 0, ""), F(<<2>>, "Message", "Single", 1, "")>>)>>],
  [msgs |-> <<M("M1", <<F(<<1>>, "Bytes", "Single", 0, ""), F(<<2>>, "UInt64", "Repeated", 0, "")>>)>>],
  [msgs |-> <<M("M1", <<F(<<1>>, "Fixed32", "Repeated", 0, ""), F(<<2>>, "SInt32", "Single", 0, "")>>)>>],
  [msgs |-> <<M("M1", <<F(<<1>>, "UInt32", "RepeatedPacked", 0, ""), F(<<2>>, "Message", "Repeated", 2, "")>>),
              M("M2", <<F(<<2>>, "Int64", "Optional", 0, "")>>)>>],
  [msgs |-> <<M("M1", <<F(<<1>>, "Bool", "Single", 0, ""), F(<<2>>, "Double", "RepeatedPacked", 0, "")>>)>>],
  [msgs |-> <<M("M1", <<F(<<1>>, "Enum", "Repeated", 0, "E1"), F(<<2>>, "Float", "Single", 0, "")>>)>>],
  [msgs |-> <<M("M1", <<F(<<1>>, "SInt32", "Repeated", 0, ""), F(<<2>>, "SFixed64", "Single", 0, "")>>)>>],
  [msgs |-> <<M("M1", <<>>)>>]
>>

(* Tags and values for every wire type, and for fields 1, 2 and 3 (undeclared). *)
NegOne == <<255, 255, 255, 255, 255, 255, 255, 255, 255, 1>>
Pieces == <<
  <<8, 1>>, <<8>> \o NegOne, <<8, 128, 128, 128, 128, 8>>, <<8, 255, 255, 255, 255, 15>>, <<8, 129, 0>>,
  <<16, 2>>, <<16>> \o NegOne,
  <<9, 1, 2, 3, 4, 5, 6, 7, 8>>, <<17, 0, 0, 0, 0, 0, 0, 240, 127>>,
  <<13, 1, 2, 3, 4>>, <<21, 0, 0, 192, 127>>,
  <<10, 0>>, <<10, 2, 8, 1>>, <<10, 3, 195, 40, 255>>, <<10, 8, 1, 2, 3, 4, 5, 6, 7, 8>>, <<10, 2, 1, 128>>,
  <<18, 2, 8, 3>>, <<18, 4, 18, 2, 8, 1>>, <<18, 16, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 240, 63>>, <<18, 1, 8>>,
  <<18, 3, 11, 1, 2>>,
  <<24, 5>>, <<26, 1, 7>>, <<29, 1, 1, 1, 1>>, <<25, 1, 1, 1, 1, 1, 1, 1, 1>>,
  <<11>>, <<20, 1>>, <<128>>, <<8>>, <<10, 5, 1>>, <<13, 1>>, <<26, 4, 0>>,
  <<8, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 1>>
>>

VARIABLES s,      \* schema
          src,    \* payload
          built,  \* pieces used, or bytes
          st,     \* "building", or the decoder machine
          evs,    \* events so far
          acts    \* actions taken so far
vars == <<s, src, built, st, evs, acts>>

Building == [stack |-> <<>>, pos |-> 0]

Init == s \in 1..Len(Schemas) /\ src = <<>> /\ built = 0 /\ st = Building /\ evs = <<>> /\ acts = {}

AddByte == /\ st = Building /\ built < MaxBytes /\ Len(src) = built
           /\ \E b \in Alphabet : src' = Append(src, b)
           /\ built' = built + 1 /\ UNCHANGED <<s, st, evs, acts>>

(* Pieces are marked by a built count above MaxBytes, so the two ways of building do not mix. *)
AddPiece == /\ st = Building /\ MaxPieces > 0
            /\ \/ src = <<>> /\ built = 0
               \/ built >= 1000 /\ built < 1000 + MaxPieces
            /\ \E i \in 1..Len(Pieces) : src' = src \o Pieces[i]
            /\ built' = IF built = 0 THEN 1001 ELSE built + 1
            /\ UNCHANGED <<s, st, evs, acts>>

Begin == st = Building /\ st' = Start(1, src) /\ acts' = {"Start"} /\ UNCHANGED <<s, src, built, evs>>

Decoding == acts # {} /\ ~Finished(st)
Decode == /\ Decoding
          /\ LET r == StepOf(Schemas[s], src, st)
             IN  st' = Apply(st, r) /\ evs' = Append(evs, r.ev) /\ acts' = acts \cup {r.act}
          /\ UNCHANGED <<s, src, built>>

Over == acts # {} /\ Finished(st)
Next == AddByte \/ AddPiece \/ Begin \/ Decode
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Decode)

-----------------------------------------------------------------------------
(* C01.  Every decode ends, every step makes progress, and the value is no larger than the payload. *)
TypeOk ==
  Decoding => /\ \A i \in 1..Len(st.stack) : st.stack[i].lim <= Len(src)
              /\ \A i \in 1..(Len(st.stack) - 1) : st.stack[i + 1].lim <= st.stack[i].lim
              /\ st.pos >= 1 /\ st.pos <= st.stack[Len(st.stack)].lim + 1
              /\ Len(st.stack) <= MaxDepth + 1
Variant == 2 * (Len(src) + 1 - st.pos) + Len(st.stack)
Progress == [][Decoding => Variant' < Variant]_vars
Terminates == Decoding ~> Over
Bounded == Over => Len(evs) <= Len(src) + 1

Sch == Schemas[s]
Final == Over

(* C02 *)
Lossless == Final => (Canonical(Sch, 1, src) => Encode(evs) = src)
Stable   == Final => Run(Sch, 1, Encode(evs)) = evs

(* C03: independent reading of a single-field payload with a minimal varint; and steps match their value functions. *)
KnownKinds == Final => \A i \in 1..Len(evs) :
  evs[i].t = "F" /\ evs[i].k \in ScalarTypes \cup {"Enum", "String", "Bytes"} =>
    \E k \in 1..Len(Sch.msgs) : LET f == FieldIdx(Sch, k, evs[i].n)
                                IN  f # 0 /\ Sch.msgs[k].fields[f].ty = evs[i].k /\ WireOf(evs[i].k) = evs[i].w
ZigzagInverse == Final => \A i \in 1..Len(evs) :
  evs[i].k \in {"SInt32", "SInt64"} => UnZigzag(Zigzag(evs[i].v)) = evs[i].v /\ UnZigzag(evs[i].v) # Not(UnZigzag(evs[i].v))

(* C04: without its unknown and mismatched top-level fields, a payload decodes to the other fields. *)
SkipActs == {"Unknown", "Mismatch", "Invalid"}
WithoutSkipped(sp) == Concat([i \in 1..Len(sp) |-> IF sp[i].act \in SkipActs THEN <<>> ELSE SubSeq(src, sp[i].from, sp[i].to)])
KeptEvents(sp) == Concat([i \in 1..Len(sp) |-> IF sp[i].act \in SkipActs \cup {"LeaveGarbage"} THEN <<>> ELSE SubSeq(evs, sp[i].first, sp[i].last)])
Skipping == Final =>
  LET sp == Spans(Sch, 1, src)
  IN  Run(Sch, 1, WithoutSkipped(sp)) = KeptEvents(sp) \o <<evs[Len(evs)]>>
(* Its bytes are accounted for: spans tile the payload. *)
Tiled == Final =>
  LET sp == Spans(Sch, 1, src)
  IN  /\ Concat([i \in 1..Len(sp) |-> SubSeq(src, sp[i].from, sp[i].to)]) = src
      /\ \A i \in 1..Len(sp) : sp[i].from = IF i = 1 THEN 1 ELSE sp[i - 1].to + 1

(* C05 *)
Cuts == Final => LET sp == Spans(Sch, 1, src)
                 IN  \A c \in 0..Len(src) : CutOkAt(sp, src, evs, c, Run(Sch, 1, SubSeq(src, 1, c)))

(* C06: this payload as the content of field 2 of schema 1, and as a packed array, between siblings. *)
Sib == <<8, 7>>
Contained == Final /\ (\E f \in 1..Len(Sch.msgs[1].fields) : Sch.msgs[1].fields[f].ref = 1) =>
  LET i == CHOOSE i \in 1..Len(Sch.msgs[1].fields) : Sch.msgs[1].fields[i].ref = 1
      n == Sch.msgs[1].fields[i].n
      w == Sib \o Tag(n, 2) \o LenPrefixed(src) \o Sib
      e == Run(Sch, 1, Sib)
  IN  NestOk(n, "M1", e, evs, e, Run(Sch, 1, w))
PackedContained == Final =>
  \A i \in 1..Len(Sch.msgs[1].fields) :
    LET f == Sch.msgs[1].fields[i] IN
    Repeated(f.mult) /\ Packable(f.ty) =>
      LET w == Sib \o Tag(f.n, 2) \o LenPrefixed(src) \o Sib
          e == Run(Sch, 1, Sib)
          r == Run(Sch, 1, w)
          p == ReadPacked(f.ty, src, 1, Len(src))
      IN  r = Body(e) \o <<IF p.ok THEN EvPacked(f.n, "P" \o f.ty, p.vs) ELSE EvField(f.n, "Incomplete", 2, LenPrefixed(src))>> \o e

(* C07 *)
Compositional == Final => \A c \in 0..Len(src) :
  LET a == SubSeq(src, 1, c)
  IN  AtBoundary(Sch, 1, a) => ConcatOk(Run(Sch, 1, a), Run(Sch, 1, SubSeq(src, c + 1, Len(src))), evs)

(* C08: an element of a packed array is what the same bytes are in a field of their own. *)
RECURSIVE Elements(_, _, _)
Elements(ty, b, p) == IF p > Len(b) THEN <<>>
                      ELSE LET e == ReadScalar(ty, b, p, Len(b)) IN <<SubSeq(b, p, e.next - 1)>> \o Elements(ty, b, e.next)
BothForms == Final =>
  \A i \in 1..Len(Sch.msgs[1].fields) :
    LET f == Sch.msgs[1].fields[i] IN
    Repeated(f.mult) /\ Packable(f.ty) /\ src # <<>> =>
      LET p == ReadPacked(f.ty, src, 1, Len(src)) IN
      p.ok => LET es == Elements(f.ty, src, 1)
                  singles == Concat([k \in 1..Len(es) |-> Tag(f.n, WireOf(f.ty)) \o es[k]])
                  r == Run(Sch, 1, singles)
              IN  r = [k \in 1..Len(es) |-> EvField(f.n, f.ty, WireOf(f.ty), p.vs[k])] \o <<EvLeave(0, <<>>)>>

(* Vectors for the real decoder.  Printed once per behaviour, as the final state is reached once. *)
Vectors == Final /\ Emit =>
  PrintT("VEC " \o ToJson([s |-> s, m |-> 1, src |-> src, ev |-> evs, acts |-> acts, canon |-> Canonical(Sch, 1, src)]))
SchemaLines == \A i \in 1..Len(Schemas) : PrintT("SCH " \o ToJson(Schemas[i]))
ASSUME Emit => SchemaLines
=============================================================================
