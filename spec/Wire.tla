-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The protobuf wire format as protofish decodes and encodes it.           *)
(*                                                                         *)
(* The decoder is a step machine: one step reads one tag and the value     *)
(* behind it (or enters / leaves a nested message), exactly one iteration  *)
(* of the decoding loop, and emits one event.  Trace specifications reuse  *)
(* the steps to explain what the real decoder reported.                    *)
(*                                                                         *)
(* A schema is a record [msgs |-> Seq([name, fields |-> Seq(field)])] with *)
(* field = [n, ty, mult, ref, en]: number (trimmed little-endian bytes),   *)
(* type, multiplicity, message index (for messages), enum name (for enums).*)
(***************************************************************************)
EXTENDS Bytes, TLC, FiniteSets
LOCAL INSTANCE SequencesExt

MaxDepth == 100       \* nesting levels below the root that are decoded

WireOf(ty) ==
  CASE ty \in {"Int32", "Int64", "UInt32", "UInt64", "SInt32", "SInt64", "Bool", "Enum"} -> 0
    [] ty \in {"Fixed64", "SFixed64", "Double"} -> 1
    [] ty \in {"String", "Bytes", "Message"} -> 2
    [] ty \in {"Fixed32", "SFixed32", "Float"} -> 5

WidthOf(ty) == IF ty \in {"Int32", "UInt32", "SInt32", "Fixed32", "SFixed32", "Float"} THEN 4
               ELSE IF ty = "Bool" THEN 1 ELSE 8

ScalarTypes == {"Int32", "Int64", "UInt32", "UInt64", "SInt32", "SInt64", "Bool",
                "Fixed32", "SFixed32", "Float", "Fixed64", "SFixed64", "Double"}
Packable(ty) == ty \in ScalarTypes
Repeated(mult) == mult \in {"Repeated", "RepeatedPacked"}

(***************************************************************************)
(* Events: what the decoder reports, one per field value, entered nested   *)
(* message ("E") and left message ("L", carrying its trailing garbage).    *)
(***************************************************************************)
Ev(t, n, k, w, v, vs, m) == [t |-> t, n |-> n, k |-> k, w |-> w, v |-> v, vs |-> vs, m |-> m]
EvField(n, k, w, v)  == Ev("F", n, k, w, v, <<>>, "")
EvPacked(n, k, vs)   == Ev("F", n, k, 2, <<>>, vs, "")
EvEnum(n, v, en)     == Ev("F", n, "Enum", 0, v, <<>>, en)
EvEnter(n, name)     == Ev("E", n, "Message", 2, <<>>, <<>>, name)
EvLeave(has, g)      == Ev("L", <<>>, "Leave", has, g, <<>>, "")

(***************************************************************************)
(* Reading values.                                                         *)
(***************************************************************************)

(* The value of a varint-typed scalar from the 64 varint bits. *)
VarintScalar(ty, u) ==
  CASE ty \in {"Int64", "UInt64", "Enum"}  -> u
    [] ty \in {"Int32", "UInt32"}          -> SubSeq(u, 1, 4)
    [] ty = "SInt64"                       -> UnZigzag(u)
    [] ty = "SInt32"                       -> UnZigzag(SubSeq(u, 1, 4))
    [] ty = "Bool"                         -> IF u = Zeros(8) THEN <<0>> ELSE <<1>>

(* [ok, v, next]: one element of a scalar type at p. *)
ReadScalar(ty, src, p, lim) ==
  LET w == WireOf(ty) IN
  CASE w = 0 -> LET r == ReadVarint(src, p, lim)
                IN  [ok |-> r.ok, v |-> IF r.ok THEN VarintScalar(ty, r.val) ELSE <<>>, next |-> r.next]
    [] w = 1 -> IF p + 7 <= lim THEN [ok |-> TRUE, v |-> SubSeq(src, p, p + 7), next |-> p + 8]
                ELSE [ok |-> FALSE, v |-> <<>>, next |-> p]
    [] w = 5 -> IF p + 3 <= lim THEN [ok |-> TRUE, v |-> SubSeq(src, p, p + 3), next |-> p + 4]
                ELSE [ok |-> FALSE, v |-> <<>>, next |-> p]

(* [ok, vs]: the elements filling p..lim exactly. *)
ReadPacked(ty, src, p, lim) ==
  Loop(IF p > lim THEN 0 ELSE lim - p + 1, LAMBDA q : q.ok /\ q.at <= lim,
       LAMBDA q : LET e == ReadScalar(ty, src, q.at, lim)
                  IN  IF e.ok THEN [ok |-> TRUE, at |-> e.next, vs |-> Append(q.vs, e.v)]
                      ELSE [ok |-> FALSE, at |-> q.at, vs |-> <<>>],
       [ok |-> TRUE, at |-> p, vs |-> <<>>])

(* The extent of a value of wire type w at p: [ok, from, to]; from..to is the content (without length
   prefix), to is where the value ends.  Not ok: the region ends first, or a varint is malformed. *)
Extent(w, src, p, lim) ==
  CASE w = 0 -> LET n == VarintLen(src, p, lim) IN [ok |-> n > 0, from |-> p, to |-> p + n - 1]
    [] w = 1 -> [ok |-> p + 7 <= lim, from |-> p, to |-> p + 7]
    [] w = 5 -> [ok |-> p + 3 <= lim, from |-> p, to |-> p + 3]
    [] w = 2 -> LET r == ReadVarint(src, p, lim)
                IN  IF ~r.ok THEN [ok |-> FALSE, from |-> p, to |-> p]
                    ELSE IF ~Small(r.val) \/ ToNat(r.val) > lim - r.next + 1
                         THEN [ok |-> FALSE, from |-> p, to |-> p]
                    ELSE [ok |-> TRUE, from |-> r.next, to |-> r.next + ToNat(r.val) - 1]

InvalidWire(w) == w \in {3, 4, 6, 7}

FieldIdx(sch, m, num) ==
  LET fs == sch.msgs[m].fields
  IN  IF \E i \in 1..Len(fs) : fs[i].n = num THEN CHOOSE i \in 1..Len(fs) : fs[i].n = num ELSE 0

UnknownEv(num, w, src, p, x) ==
  CASE w = 0 -> EvField(num, "UVarint", 0, VarintValue(src, p, x.to - p + 1))
    [] w = 1 -> EvField(num, "UFixed64", 1, SubSeq(src, x.from, x.to))
    [] w = 2 -> EvField(num, "UBytes", 2, SubSeq(src, x.from, x.to))
    [] w = 5 -> EvField(num, "UFixed32", 5, SubSeq(src, x.from, x.to))

(***************************************************************************)
(* One decoding step in message m of the schema, at pos inside a region    *)
(* ending at lim, `depth` levels below the root.                           *)
(* Result: [act, ev, next]; for act = "EnterMessage" also [msg, lim].      *)
(***************************************************************************)
Res(act, ev, next) == [act |-> act, ev |-> ev, next |-> next, msg |-> 0, lim |-> 0]

Step(sch, src, m, pos, lim, depth) ==
  IF pos > lim THEN Res("Leave", EvLeave(0, <<>>), pos)
  ELSE
  LET tag == ReadVarint(src, pos, lim) IN
  IF ~tag.ok THEN Res("LeaveGarbage", EvLeave(1, SubSeq(src, pos, lim)), lim + 1)
  ELSE
  LET num == Trim(Shr3(tag.val))
      w   == tag.val[1] % 8
      p   == tag.next
      i   == FieldIdx(sch, m, num)
  IN
  IF InvalidWire(w) THEN Res("Invalid", EvField(num, "UInvalid", w, SubSeq(src, p, lim)), lim + 1)
  ELSE
  LET x == Extent(w, src, p, lim) IN
  IF ~x.ok
    THEN Res(IF i = 0 THEN "IncompleteUnknown" ELSE "Incomplete",
             EvField(num, "Incomplete", w, SubSeq(src, p, lim)), lim + 1)
  ELSE IF i = 0
    THEN Res("Unknown", UnknownEv(num, w, src, p, x), x.to + 1)
  ELSE
  LET f == sch.msgs[m].fields[i] IN
  CASE w = 2 /\ Repeated(f.mult) /\ Packable(f.ty) ->
         LET r == ReadPacked(f.ty, src, x.from, x.to)
         IN  IF r.ok THEN Res("Packed", EvPacked(num, "P" \o f.ty, r.vs), x.to + 1)
             ELSE Res("PackedMalformed", EvField(num, "Incomplete", w, SubSeq(src, p, x.to)), x.to + 1)
    [] w = 2 /\ Repeated(f.mult) /\ f.ty = "Enum" ->
         \* Known deviation (finding F1): packed enums have no representation.
         Res("PackedEnum", UnknownEv(num, w, src, p, x), x.to + 1)
    [] WireOf(f.ty) # w -> Res("Mismatch", UnknownEv(num, w, src, p, x), x.to + 1)
    [] f.ty \in ScalarTypes ->
         Res("Scalar", EvField(num, f.ty, w, ReadScalar(f.ty, src, p, x.to).v), x.to + 1)
    [] f.ty = "Enum" ->
         Res("Enum", EvEnum(num, VarintValue(src, p, x.to - p + 1), f.en), x.to + 1)
    [] f.ty = "String" -> Res("String", EvField(num, "String", 2, Lossy(SubSeq(src, x.from, x.to))), x.to + 1)
    [] f.ty = "Bytes"  -> Res("Bytes", EvField(num, "Bytes", 2, SubSeq(src, x.from, x.to)), x.to + 1)
    [] f.ty = "Message" /\ depth >= MaxDepth -> Res("TooDeep", UnknownEv(num, w, src, p, x), x.to + 1)
    [] f.ty = "Message" ->
         [act |-> "EnterMessage", ev |-> EvEnter(num, sch.msgs[f.ref].name), next |-> x.from,
          msg |-> f.ref, lim |-> x.to]

Acts == {"Leave", "LeaveGarbage", "Invalid", "IncompleteUnknown", "Incomplete", "Unknown", "Packed",
         "PackedMalformed", "PackedEnum", "Mismatch", "Scalar", "Enum", "String", "Bytes", "TooDeep",
         "EnterMessage"}

(***************************************************************************)
(* The machine: stack of frames [m, lim] and a position.                   *)
(***************************************************************************)
Start(m, src) == [stack |-> <<[m |-> m, lim |-> Len(src)]>>, pos |-> 1]
Finished(st) == st.stack = <<>>

StepOf(sch, src, st) ==
  LET top == st.stack[Len(st.stack)]
  IN  Step(sch, src, top.m, st.pos, top.lim, Len(st.stack) - 1)

Apply(st, r) ==
  CASE r.act \in {"Leave", "LeaveGarbage"} -> [stack |-> SubSeq(st.stack, 1, Len(st.stack) - 1), pos |-> r.next]
    [] r.act = "EnterMessage" -> [stack |-> Append(st.stack, [m |-> r.msg, lim |-> r.lim]), pos |-> r.next]
    [] OTHER -> [stack |-> st.stack, pos |-> r.next]

(* Every step takes at least a byte, apart from leaving a message, which took a tag to enter. *)
Steps(src) == 2 * Len(src) + 2

(* All events of decoding src as message m. *)
Run(sch, m, src) ==
  Loop(Steps(src), LAMBDA q : ~Finished(q.st),
       LAMBDA q : LET r == StepOf(sch, src, q.st) IN [st |-> Apply(q.st, r), evs |-> Append(q.evs, r.ev)],
       [st |-> Start(m, src), evs |-> <<>>]).evs

(* Top-level events only: [act, from, to, tagto, n, w, first, last] with event index range first..last. *)
NoSpan == [act |-> "", from |-> 0, to |-> 0, tagto |-> 0, n |-> <<>>, w |-> 0, first |-> 0, last |-> 0]
SpanStep(sch, src, q) ==
  LET r   == StepOf(sch, src, q.st)
      st2 == Apply(q.st, r)
      d1  == Len(q.st.stack)
      d2  == Len(st2.stack)
      tag == ReadVarint(src, q.st.pos, q.st.stack[1].lim)
      s   == [act |-> r.act, from |-> q.st.pos, to |-> IF d2 = 2 THEN r.lim ELSE r.next - 1,
              tagto |-> tag.next - 1, n |-> r.ev.n, w |-> tag.val[1] % 8,
              first |-> q.idx, last |-> q.idx]
      g   == [act |-> r.act, from |-> q.st.pos, to |-> r.next - 1, tagto |-> r.next - 1,
              n |-> <<>>, w |-> 0, first |-> q.idx, last |-> q.idx]
      on  == [q EXCEPT !.st = st2, !.idx = @ + 1]
  IN  CASE d1 = 1 /\ d2 = 0 -> IF r.act = "LeaveGarbage" THEN [on EXCEPT !.sp = Append(@, g)] ELSE on
        [] d1 = 1 /\ d2 = 1 -> [on EXCEPT !.sp = Append(@, s)]
        [] d1 = 1 /\ d2 = 2 -> [on EXCEPT !.cur = s]
        [] d1 = 2 /\ d2 = 1 -> [on EXCEPT !.sp = Append(@, [q.cur EXCEPT !.last = q.idx])]
        [] OTHER -> on
Spans(sch, m, src) ==
  Loop(Steps(src), LAMBDA q : ~Finished(q.st), LAMBDA q : SpanStep(sch, src, q),
       [st |-> Start(m, src), idx |-> 1, cur |-> NoSpan, sp |-> <<>>]).sp

(***************************************************************************)
(* Encoding.                                                               *)
(***************************************************************************)
Tag(n, w) == EncVarint([Shl3(Resize(n, 8)) EXCEPT ![1] = @ + w])
LenPrefixed(b) == EncNat(Len(b)) \o b

ScalarBytes(ty, v) ==
  CASE ty \in {"Int32", "Int64", "Enum"} -> EncVarint(SignExtend(v, 8))
    [] ty \in {"UInt32", "UInt64", "Bool"} -> EncVarint(v)
    [] ty \in {"SInt32", "SInt64"} -> EncVarint(Zigzag(v))
    [] WireOf(ty) \in {1, 5} -> v

PackedKinds == {"P" \o ty : ty \in ScalarTypes}
PackedElem == [k \in PackedKinds |-> CHOOSE ty \in ScalarTypes : "P" \o ty = k]

PayloadBytes(e) ==
  CASE e.k \in ScalarTypes \cup {"Enum"} -> ScalarBytes(e.k, e.v)
    [] e.k \in {"String", "Bytes", "UBytes"} -> LenPrefixed(e.v)
    [] e.k \in PackedKinds -> LenPrefixed(Concat([i \in 1..Len(e.vs) |-> ScalarBytes(PackedElem[e.k], e.vs[i])]))
    [] e.k = "UVarint" -> EncVarint(e.v)
    [] e.k \in {"UFixed64", "UFixed32", "UInvalid", "Incomplete"} -> e.v

(* acc: stack of byte strings of the open messages; ns: numbers of the open nested messages. *)
EncodeStep(q, e) ==
  LET top   == q.acc[Len(q.acc)]
      below == SubSeq(q.acc, 1, Len(q.acc) - 1)
      body  == top \o e.v
  IN
  CASE e.t = "E" -> [acc |-> Append(q.acc, <<>>), ns |-> Append(q.ns, e.n)]
    [] e.t = "F" -> [q EXCEPT !.acc = Append(below, top \o Tag(e.n, e.w) \o PayloadBytes(e))]
    [] e.t = "L" /\ Len(q.acc) = 1 -> [q EXCEPT !.acc = <<body>>]
    [] e.t = "L" /\ Len(q.acc) > 1 ->
         LET p == below[Len(below)]
         IN  [acc |-> Append(SubSeq(below, 1, Len(below) - 1), p \o Tag(q.ns[Len(q.ns)], 2) \o LenPrefixed(body)),
              ns |-> SubSeq(q.ns, 1, Len(q.ns) - 1)]
Encode(evs) == FoldLeft(EncodeStep, [acc |-> <<<<>>>>, ns |-> <<>>], evs).acc[1]

(***************************************************************************)
(* Payloads whose spelling is unique: minimal varints, in-range scalars,   *)
(* valid UTF-8.  Decoding must be lossless on exactly these (C02).         *)
(***************************************************************************)
MinimalVarint(src, p, lim) == LET r == ReadVarint(src, p, lim) IN r.ok /\ EncVarint(r.val) = SubSeq(src, p, r.next - 1)

InRange(ty, u) == EncVarint(u) = ScalarBytes(ty, VarintScalar(ty, u))

CanonPacked(ty, src, p, lim) ==
  WireOf(ty) # 0
  \/ Loop(lim - p + 1, LAMBDA q : q.ok /\ q.at <= lim,
          LAMBDA q : LET r == ReadVarint(src, q.at, lim)
                     IN  [ok |-> MinimalVarint(src, q.at, lim) /\ InRange(ty, r.val), at |-> r.next],
          [ok |-> TRUE, at |-> p]).ok

CanonStep(sch, src, st, r) ==
  LET top == st.stack[Len(st.stack)]
      lim == top.lim
      tag == ReadVarint(src, st.pos, lim)
      p   == tag.next
      w   == r.ev.w
  IN  CASE r.act \in {"Leave", "LeaveGarbage"} -> TRUE
        [] OTHER ->
           /\ MinimalVarint(src, st.pos, lim)
           /\ CASE r.act \in {"Invalid", "Incomplete", "IncompleteUnknown", "PackedMalformed"} -> TRUE
                [] r.act = "Scalar" -> w # 0 \/ (MinimalVarint(src, p, lim) /\ InRange(r.ev.k, ReadVarint(src, p, lim).val))
                [] r.act = "String" -> MinimalVarint(src, p, lim)
                                       /\ LET x == Extent(2, src, p, lim)
                                          IN  Lossy(SubSeq(src, x.from, x.to)) = SubSeq(src, x.from, x.to)
                [] r.act = "Packed" -> MinimalVarint(src, p, lim)
                                       /\ LET x == Extent(2, src, p, lim)
                                          IN  CanonPacked(PackedElem[r.ev.k], src, x.from, x.to)
                [] OTHER -> w \notin {0, 2} \/ MinimalVarint(src, p, lim)

Canonical(sch, m, src) ==
  Loop(Steps(src), LAMBDA q : q.ok /\ ~Finished(q.st),
       LAMBDA q : LET r == StepOf(sch, src, q.st)
                  IN  [ok |-> CanonStep(sch, src, q.st, r), st |-> Apply(q.st, r)],
       [ok |-> TRUE, st |-> Start(m, src)]).ok

(***************************************************************************)
(* Relations between decodes, evaluated on the model by TLC and on logged  *)
(* real decodes by the trace specification.                                *)
(***************************************************************************)

(* C05.  sp: the spans of src; full: events of the whole payload; cut: events of its first c bytes. *)
CutOkAt(sp, src, full, c, cut) ==
  LET nd    == Cardinality({i \in 1..Len(sp) : sp[i].act # "LeaveGarbage" /\ sp[i].to <= c})   \* spans are in order
      keep  == IF nd = 0 THEN <<>> ELSE SubSeq(full, 1, sp[nd].last)
      start == IF nd = 0 THEN 1 ELSE sp[nd].to + 1        \* first byte after the complete fields
      rest  == SubSeq(src, start, c)
      s     == sp[nd + 1]
  IN  IF start > c THEN cut = keep \o <<EvLeave(0, <<>>)>>
      ELSE IF s.act = "LeaveGarbage" \/ s.tagto > c
        THEN cut = keep \o <<EvLeave(1, rest)>>
      ELSE cut = keep \o <<EvField(s.n, IF s.act = "Invalid" THEN "UInvalid" ELSE "Incomplete", s.w,
                                   SubSeq(src, s.tagto + 1, c)),
                           EvLeave(0, <<>>)>>

CutOk(sch, m, src, full, c, cut) == CutOkAt(Spans(sch, m, src), src, full, c, cut)

(* A payload that ends at a field boundary. *)
AtBoundary(sch, m, src) ==
  LET sp == Spans(sch, m, src)
  IN  sp = <<>> \/ sp[Len(sp)].act \notin {"LeaveGarbage", "Invalid", "Incomplete", "IncompleteUnknown"}

Body(evs) == SubSeq(evs, 1, Len(evs) - 1)        \* events without the final "L"

(* C07. *)
ConcatOk(ea, eb, eab) == eab = Body(ea) \o eb
(* C06 / C07: content as nested message (number n, name) between siblings. *)
NestOk(n, name, before, inner, after, whole) ==
  whole = Body(before) \o <<EvEnter(n, name)>> \o inner \o after
=============================================================================
