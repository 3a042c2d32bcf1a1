------------------------------ MODULE MCValue ------------------------------
(***************************************************************************)
(* Message values put together field by field from boundary values of      *)
(* every type, then encoded.  Round trip and canonical form are invariants *)
(* of every finished value; finished values are printed with the bytes the *)
(* specification prescribes, for the real encoder.                         *)
(***************************************************************************)
EXTENDS Wire, Json

CONSTANT MaxFields

F(n, ty, mult, ref, en) == [n |-> n, ty |-> ty, mult |-> mult, ref |-> ref, en |-> en]
Schema == [msgs |-> <<[name |-> "M1", fields |-> <<
  F(<<1>>, "Int32", "RepeatedPacked", 0, ""), F(<<2>>, "Int64", "Repeated", 0, ""),
  F(<<3>>, "UInt32", "RepeatedPacked", 0, ""), F(<<4>>, "UInt64", "Repeated", 0, ""),
  F(<<15>>, "SInt32", "RepeatedPacked", 0, ""), F(<<16>>, "SInt64", "RepeatedPacked", 0, ""),
  F(<<255, 7>>, "Bool", "RepeatedPacked", 0, ""), F(<<0, 8>>, "Fixed32", "RepeatedPacked", 0, ""),
  F(<<255, 255, 3>>, "SFixed32", "Repeated", 0, ""), F(<<255, 255, 255, 31>>, "Float", "RepeatedPacked", 0, ""),
  F(<<0, 0, 0, 32>>, "Fixed64", "RepeatedPacked", 0, ""), F(<<255, 255, 255, 255, 255, 255, 255, 31>>, "SFixed64", "RepeatedPacked", 0, ""),
  F(<<5>>, "Double", "RepeatedPacked", 0, ""), F(<<6>>, "String", "Repeated", 0, ""), F(<<7>>, "Bytes", "Repeated", 0, ""),
  F(<<8>>, "Enum", "Repeated", 0, "E1"), F(<<9>>, "Message", "Repeated", 1, "")>>]>>]

B4 == {<<0, 0, 0, 0>>, <<1, 0, 0, 0>>, <<255, 255, 255, 255>>, <<255, 255, 255, 127>>, <<0, 0, 0, 128>>, <<128, 0, 0, 0>>, <<254, 255, 255, 255>>}
B8 == {<<0, 0, 0, 0, 0, 0, 0, 0>>, <<1, 0, 0, 0, 0, 0, 0, 0>>, <<255, 255, 255, 255, 255, 255, 255, 255>>,
       <<255, 255, 255, 255, 255, 255, 255, 127>>, <<0, 0, 0, 0, 0, 0, 0, 128>>, <<0, 0, 0, 128, 0, 0, 0, 0>>,
       <<255, 255, 255, 255, 0, 0, 0, 0>>, <<0, 0, 0, 128, 255, 255, 255, 255>>}
Nan4 == {<<0, 0, 192, 127>>, <<1, 0, 128, 127>>, <<0, 0, 128, 255>>}
Nan8 == {<<0, 0, 0, 0, 0, 0, 248, 127>>, <<1, 0, 0, 0, 0, 0, 240, 255>>}
Domain(ty) == CASE ty = "Bool" -> {<<0>>, <<1>>}
                [] ty = "Float" -> B4 \cup Nan4
                [] ty = "Double" -> B8 \cup Nan8
                [] WidthOf(ty) = 4 -> B4
                [] OTHER -> B8

Some(S) == CHOOSE x \in S : TRUE
Fields == {Schema.msgs[1].fields[i] : i \in 1..Len(Schema.msgs[1].fields)}
Singles ==
  LET scal == {f \in Fields : f.ty \in ScalarTypes}
  IN  UNION {{<<EvField(f.n, f.ty, WireOf(f.ty), v)>> : v \in Domain(f.ty)} : f \in scal}
      \cup UNION {{<<EvPacked(f.n, "P" \o f.ty, <<v, Some(Domain(f.ty))>>)>> : v \in Domain(f.ty)} : f \in scal}
      \cup {<<EvPacked(f.n, "P" \o f.ty, <<>>)>> : f \in scal}
      \cup {<<EvEnum(<<8>>, v, "E1")>> : v \in B8}
      \cup {<<EvField(<<6>>, "String", 2, v)>> : v \in {<<>>, <<104, 105>>, <<195, 169, 0>>, <<240, 159, 152, 128>>}}
      \cup {<<EvField(<<7>>, "Bytes", 2, v)>> : v \in {<<>>, <<255, 0>>, Zeros(127), Zeros(128)}}
      \cup {<<EvField(<<10>>, "UVarint", 0, v)>> : v \in B8}
      \cup {<<EvField(<<11>>, "UFixed64", 1, v)>> : v \in B8}
      \cup {<<EvField(<<0, 1>>, "UFixed32", 5, v)>> : v \in B4}
      \cup {<<EvField(<<12>>, "UBytes", 2, v)>> : v \in {<<>>, <<8>>, <<128, 128>>}}
Leave0 == <<EvLeave(0, <<>>)>>
Wrap(evs) == <<EvEnter(<<9>>, "M1")>> \o evs \o Leave0
Nested == {Wrap(x) : x \in Singles} \cup {Wrap(<<>>), Wrap(Wrap(<<>>)), Wrap(Wrap(<<EvField(<<7>>, "Bytes", 2, Zeros(126))>>))}

VARIABLES evs, n, done
vars == <<evs, n, done>>
Init == evs = <<>> /\ n = 0 /\ done = FALSE
Add == ~done /\ n < MaxFields /\ n < 2
       /\ \E x \in (IF n = 0 THEN Singles \cup Nested ELSE Singles) : evs' = evs \o x
       /\ n' = n + 1 /\ UNCHANGED done
(* A third field only from the packed values, whose length prefixes depend on what is before them in a nested message. *)
AddThird == ~done /\ n = 2 /\ MaxFields > 2
       /\ \E x \in {y \in Singles : y[1].k \in {"PSInt32", "PUInt64", "PBool", "String"}} : evs' = evs \o x
       /\ n' = n + 1 /\ UNCHANGED done
Finish == ~done /\ evs' = evs \o Leave0 /\ done' = TRUE /\ UNCHANGED n
(* A finished value becomes the content of a nested message once. *)
Next == Add \/ AddThird \/ Finish
Spec == Init /\ [][Next]_vars

RoundTrip == done => Run(Schema, 1, Encode(evs)) = evs
Minimal   == done => Canonical(Schema, 1, Encode(evs))
Vectors   == done => PrintT("VEC " \o ToJson([s |-> 1, m |-> 1, ev |-> evs, enc |-> Encode(evs)]))
ASSUME PrintT("SCH " \o ToJson(Schema))
=============================================================================
