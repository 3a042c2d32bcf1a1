------------------------------ MODULE Literals ------------------------------
(***************************************************************************)
(* Exact values of proto3 literals, computed from their characters.        *)
(* Numbers of any size are little-endian byte vectors.                     *)
(***************************************************************************)
EXTENDS Bytes, Integers, SequencesExt

IsDigit(x) == x >= 48 /\ x <= 57
IsOctal(x) == x >= 48 /\ x <= 55
IsHex(x)   == IsDigit(x) \/ (x >= 65 /\ x <= 70) \/ (x >= 97 /\ x <= 102)
HexVal(x)  == IF IsDigit(x) THEN x - 48 ELSE IF x >= 97 THEN x - 87 ELSE x - 55

RECURSIVE Flush(_)
Flush(x) == IF x = 0 THEN <<>> ELSE <<x % 256>> \o Flush(x \div 256)

(* b * m + a; m and a at most 390625 = 5^8. *)
MulAdd(b, m, a) ==
  LET r == FoldLeft(LAMBDA acc, d : LET x == d * m + acc.c
                                    IN  [o |-> Append(acc.o, x % 256), c |-> x \div 256],
                    [o |-> <<>>, c |-> a], b)
  IN  r.o \o Flush(r.c)

Digits(c, base) == Trim(FoldLeft(LAMBDA acc, x : MulAdd(acc, base, HexVal(x)), <<>>, c))

AllOf(P(_), c, from) == \A i \in from..Len(c) : P(c[i])

(* [ok, v]: an integer literal. *)
IntLit(c) ==
  CASE Len(c) = 0 -> [ok |-> FALSE, v |-> <<>>]
    [] c[1] = 48 /\ Len(c) >= 2 /\ c[2] \in {88, 120} ->
         [ok |-> Len(c) >= 3 /\ AllOf(IsHex, c, 3), v |-> IF AllOf(IsHex, c, 3) THEN Digits(SubSeq(c, 3, Len(c)), 16) ELSE <<>>]
    [] c[1] = 48 -> [ok |-> AllOf(IsOctal, c, 1), v |-> IF AllOf(IsOctal, c, 1) THEN Digits(c, 8) ELSE <<>>]
    [] OTHER -> [ok |-> AllOf(IsDigit, c, 1), v |-> IF AllOf(IsDigit, c, 1) THEN Digits(c, 10) ELSE <<>>]

FitsU64(v) == Len(v) <= 8
(* The two's complement of -v / v, when it fits 64 bits. *)
FitsI64(neg, v) == Len(v) <= 8 /\ (Len(v) = 8 =>
  (v[8] < 128 \/ (neg /\ v = <<0, 0, 0, 0, 0, 0, 0, 128>>)))
Inc(b) == LET r == FoldLeft(LAMBDA acc, d : [o |-> Append(acc.o, (d + acc.c) % 256), c |-> (d + acc.c) \div 256],
                            [o |-> <<>>, c |-> 1], b) IN r.o
I64(neg, v) == IF neg THEN Inc(Not(Resize(v, 8))) ELSE Resize(v, 8)

(***************************************************************************)
(* String literals: the characters between the quotes.                     *)
(***************************************************************************)
CharEscapes == {97, 98, 102, 110, 114, 116, 118, 92, 39, 34}
CharEscape(x) ==
  CASE x = 97 -> 7 [] x = 98 -> 8 [] x = 102 -> 12 [] x = 110 -> 10 [] x = 114 -> 13
    [] x = 116 -> 9 [] x = 118 -> 11 [] OTHER -> x

RECURSIVE StrFrom(_, _, _)
StrFrom(c, q, p) ==
  IF p > Len(c) THEN [ok |-> TRUE, v |-> <<>>]
  ELSE LET At(i) == IF p + i <= Len(c) THEN c[p + i] ELSE 0
           Then(n, out) == LET r == StrFrom(c, q, p + n) IN [ok |-> r.ok, v |-> out \o r.v]
           Bad == [ok |-> FALSE, v |-> <<>>]
       IN  IF c[p] \in {0, 10, q} THEN Bad
           ELSE IF c[p] # 92 THEN Then(1, <<c[p]>>)
           ELSE IF At(1) \in {88, 120}
             THEN IF IsHex(At(2)) /\ IsHex(At(3)) THEN Then(4, <<HexVal(At(2)) * 16 + HexVal(At(3))>>) ELSE Bad
           ELSE IF IsOctal(At(1))
             THEN LET n == IF ~IsOctal(At(2)) THEN 1 ELSE IF ~IsOctal(At(3)) THEN 2 ELSE 3
                      v == CASE n = 1 -> At(1) - 48
                             [] n = 2 -> (At(1) - 48) * 8 + At(2) - 48
                             [] n = 3 -> (At(1) - 48) * 64 + (At(2) - 48) * 8 + At(3) - 48
                  IN  IF v > 255 THEN Bad ELSE Then(1 + n, <<v>>)
           ELSE IF At(1) \in CharEscapes THEN Then(2, <<CharEscape(At(1))>>)
           ELSE Bad
StrLit(c, q) == StrFrom(c, q, 1)
(* Escapes that other editions of the language have: one hexadecimal digit, Unicode, a question mark, octal beyond a byte. *)
StrUnclear(c) ==
  \E i \in 1..(Len(c) - 1) :
    /\ c[i] = 92
    /\ \/ c[i + 1] \in {63, 85, 117}
       \/ c[i + 1] \in {88, 120} /\ i + 2 <= Len(c) /\ IsHex(c[i + 2])
       \/ c[i + 1] \in {52, 53, 54, 55}

(***************************************************************************)
(* Floating-point literals.  A literal is D * 10^E; a double is the right  *)
(* one when no other double is closer (ties to the even mantissa).         *)
(***************************************************************************)
IsExp(x) == x = 69 \/ x = 101
FindFirst(c, P(_)) == IF \E i \in 1..Len(c) : P(c[i])
                      THEN CHOOSE i \in 1..Len(c) : P(c[i]) /\ \A j \in 1..(i - 1) : ~P(c[j])
                      ELSE Len(c) + 1
IsDot(x) == x = 46
NotZero(x) == x # 48

RECURSIVE Dec(_)
Dec(c) == IF c = <<>> THEN 0 ELSE 10 * Dec(SubSeq(c, 1, Len(c) - 1)) + (c[Len(c)] - 48)

(* [ok, d, e]: digits and decimal exponent. *)
FloatLit(c) ==
  LET ex   == FindFirst(c, IsExp)
      man  == SubSeq(c, 1, ex - 1)
      dot  == FindFirst(man, IsDot)
      int  == SubSeq(man, 1, dot - 1)
      frac == SubSeq(man, dot + 1, Len(man))
      hasExp == ex <= Len(c)
      signed == hasExp /\ ex < Len(c) /\ c[ex + 1] \in {43, 45}
      exd  == IF hasExp THEN SubSeq(c, IF signed THEN ex + 2 ELSE ex + 1, Len(c)) ELSE <<>>
      ok   == /\ AllOf(IsDigit, int, 1) /\ AllOf(IsDigit, frac, 1) /\ AllOf(IsDigit, exd, 1)
              /\ (Len(int) > 0 \/ Len(frac) > 0)
              /\ (hasExp => Len(exd) > 0)
              /\ (dot <= Len(man) \/ hasExp)
      e    == IF Len(exd) = 0 THEN 0
              ELSE LET z == FindFirst(exd, NotZero)
                       s == SubSeq(exd, z, Len(exd))
                       m == IF Len(s) > 5 THEN 99999 ELSE Dec(s)
                   IN  IF signed /\ c[ex + 1] = 45 THEN -m ELSE m
  IN  IF ok THEN [ok |-> TRUE, d |-> Digits(int \o frac, 10), e |-> e - Len(frac), n |-> Len(int \o frac)]
      ELSE [ok |-> FALSE, d |-> <<>>, e |-> 0, n |-> 0]

RECURSIVE MulPow5(_, _)
MulPow5(b, n) == IF n = 0 THEN b
                 ELSE IF n >= 8 THEN MulPow5(MulAdd(b, 390625, 0), n - 8)
                 ELSE MulPow5(MulAdd(b, 5, 0), n - 1)
ShiftLeft(b, n) == Zeros(n \div 8) \o MulAdd(b, Pow2(n % 8), 0)

RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0
                    ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpFrom(a, b, i - 1)
Cmp(a0, b0) == LET a == Trim(a0)  b == Trim(b0) IN
  IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpFrom(a, b, Len(a))

(* Compare d * 10^e with a * 2^k. *)
CmpScaled(d, e, a, k) ==
  LET l0 == IF e >= 0 THEN MulPow5(d, e) ELSE d
      r0 == IF e >= 0 THEN a ELSE MulPow5(a, -e)
      s  == e - k
  IN  Cmp(IF s >= 0 THEN ShiftLeft(l0, s) ELSE l0, IF s >= 0 THEN r0 ELSE ShiftLeft(r0, -s))

Twice(b) == MulAdd(b, 2, 0)
Pred(b) == \* b > 0
  LET r == FoldLeft(LAMBDA acc, d : [o |-> Append(acc.o, (d + 255 * acc.c) % 256), c |-> IF acc.c = 1 /\ d = 0 THEN 1 ELSE 0],
                    [o |-> <<>>, c |-> 1], b) IN r.o

(* bits: the double without its sign, little-endian. *)
Nearest(d, e, bits) ==
  LET ex  == (bits[8] % 128) * 16 + bits[7] \div 16
      fr  == SubSeq(bits, 1, 6) \o <<bits[7] % 16>>
      man == IF ex = 0 THEN fr ELSE [fr EXCEPT ![7] = @ + 16]
      k   == (IF ex = 0 THEN 1 ELSE ex) - 1075
      even == bits[1] % 2 = 0
      top == <<255, 255, 255, 255, 255, 255, 63>>            \* 2^54 - 1
      hi  == CmpScaled(d, e, MulAdd(man, 2, 1), k - 1)
      lo  == IF Trim(fr) = <<>> /\ ex > 1
             THEN CmpScaled(d, e, Pred(MulAdd(man, 4, 0)), k - 2)
             ELSE CmpScaled(d, e, Pred(Twice(man)), k - 1)
  IN  IF Trim(d) = <<>> THEN Trim(bits) = <<>>
      ELSE IF e > 400 THEN ex = 2047 /\ Trim(fr) = <<>>
      ELSE IF e + 0 < -1200 THEN Trim(bits) = <<>>
      ELSE IF ex = 2047 THEN Trim(fr) = <<>> /\ CmpScaled(d, e, top, 970) >= 0
      ELSE /\ hi < 0 \/ (hi = 0 /\ even)
           /\ Trim(man) = <<>> \/ lo > 0 \/ (lo = 0 /\ even)

IsNan(bits) == (bits[8] % 128) = 127 /\ bits[7] \div 16 = 15 /\ Trim(SubSeq(bits, 1, 6) \o <<bits[7] % 16>>) # <<>>
=============================================================================
