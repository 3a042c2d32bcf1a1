------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Byte vectors and the arithmetic of the protobuf wire format.            *)
(*                                                                         *)
(* 64-bit quantities are little-endian vectors of eight bytes, so nothing  *)
(* here depends on TLC's 32-bit integers.  Positions are 1-based, `lim` is *)
(* the last position (inclusive) of the enclosing length-delimited region. *)
(***************************************************************************)
EXTENDS Naturals, Sequences
LOCAL INSTANCE SequencesExt

Byte == 0..255

Pow2(n) == CASE n = 0 -> 1 [] n = 1 -> 2 [] n = 2 -> 4 [] n = 3 -> 8
             [] n = 4 -> 16 [] n = 5 -> 32 [] n = 6 -> 64 [] n = 7 -> 128 [] n = 8 -> 256

Slice(s, from, to) == SubSeq(s, from, to)      \* empty when to < from

Zeros(n) == [i \in 1..n |-> 0]
Ones(n)  == [i \in 1..n |-> 255]

(* Drop the high zero bytes: the canonical form of a number of any width. *)
RECURSIVE Trim(_)
Trim(b) == IF b = <<>> THEN <<>>
           ELSE IF b[Len(b)] = 0 THEN Trim(SubSeq(b, 1, Len(b) - 1)) ELSE b

(* Zero-extend or cut to n bytes. *)
Resize(b, n) == [i \in 1..n |-> IF i <= Len(b) THEN b[i] ELSE 0]

IsNegative(b) == b[Len(b)] >= 128

(* Two's complement sign extension to n bytes. *)
SignExtend(b, n) == [i \in 1..n |-> IF i <= Len(b) THEN b[i] ELSE IF IsNegative(b) THEN 255 ELSE 0]

Shr1(b) == [i \in 1..Len(b) |-> (b[i] \div 2) + (IF i < Len(b) THEN (b[i + 1] % 2) * 128 ELSE 0)]
Shl1(b) == [i \in 1..Len(b) |-> ((b[i] * 2) % 256) + (IF i > 1 THEN b[i - 1] \div 128 ELSE 0)]
Not(b)  == [i \in 1..Len(b) |-> 255 - b[i]]

(* Zigzag: 0, -1, 1, -2, ... <-> 0, 1, 2, 3, ... *)
UnZigzag(b) == IF b[1] % 2 = 1 THEN Not(Shr1(b)) ELSE Shr1(b)
Zigzag(b)   == IF IsNegative(b) THEN Not(Shl1(b)) ELSE Shl1(b)

(* Logical shift right by three, for splitting a tag into number and wire type. *)
Shr3(b) == [i \in 1..Len(b) |-> (b[i] \div 8) + (IF i < Len(b) THEN (b[i + 1] % 8) * 32 ELSE 0)]
Shl3(b) == [i \in 1..Len(b) |-> ((b[i] * 8) % 256) + (IF i > 1 THEN b[i - 1] \div 32 ELSE 0)]

(* Value of a small number (at most three bytes); callers test Small first. *)
Small(b) == Len(Trim(b)) <= 3
ToNat(b) == LET t == Resize(b, 3) IN t[1] + 256 * t[2] + 65536 * t[3]
FromNat(n) == Trim(<<n % 256, (n \div 256) % 256, (n \div 65536) % 256>>)

(***************************************************************************)
(* Varints.                                                                *)
(***************************************************************************)
MaxVarint == 10

(* Length of the varint starting at p, or 0 when it does not end within ten bytes inside the region. *)
RECURSIVE VarintLenFrom(_, _, _, _)
VarintLenFrom(src, p, lim, i) ==
  IF i > MaxVarint \/ p + i - 1 > lim THEN 0
  ELSE IF src[p + i - 1] < 128 THEN i
  ELSE VarintLenFrom(src, p, lim, i + 1)
VarintLen(src, p, lim) == VarintLenFrom(src, p, lim, 1)

(* The 64 low bits of the n-byte varint at p. *)
VarintValue(src, p, n) ==
  LET G(i) == IF i < n THEN src[p + i] % 128 ELSE 0
  IN  IF n = 1 THEN <<src[p], 0, 0, 0, 0, 0, 0, 0>>
      ELSE [j1 \in 1..8 |->
             LET j == j1 - 1
                 i == (8 * j) \div 7
                 s == (8 * j) % 7
             IN  (G(i) \div Pow2(s)) + (G(i + 1) % Pow2(s + 1)) * Pow2(7 - s)]

(* [ok, val, next]: the varint at p. *)
ReadVarint(src, p, lim) ==
  LET n == VarintLen(src, p, lim)
  IN  IF n = 0 THEN [ok |-> FALSE, val |-> Zeros(8), next |-> p, len |-> 0]
      ELSE [ok |-> TRUE, val |-> VarintValue(src, p, n), next |-> p + n, len |-> n]

(* The minimal encoding of a number given as a byte vector. *)
EncVarint(b0) ==
  LET b == Resize(b0, 8)
      B(i) == IF i <= 7 THEN b[i + 1] ELSE 0
      G(k) == LET i == (7 * k) \div 8
                  s == (7 * k) % 8
              IN  IF s <= 1 THEN (B(i) \div Pow2(s)) % 128
                  ELSE (B(i) \div Pow2(s)) + (B(i + 1) % Pow2(s - 1)) * Pow2(8 - s)
      hi == CHOOSE k \in 0..9 : (k = 0 \/ G(k) # 0) /\ \A j \in (k + 1)..9 : G(j) = 0
  IN  [k1 \in 1..(hi + 1) |-> IF k1 <= hi THEN G(k1 - 1) + 128 ELSE G(k1 - 1)]

EncNat(n) == EncVarint(FromNat(n))

(***************************************************************************)
(* UTF-8 with malformed parts replaced by U+FFFD (maximal subparts).       *)
(***************************************************************************)
Replacement == <<239, 191, 189>>

Cont(x) == x >= 128 /\ x <= 191
SecondOk(b, c) ==
  CASE b = 224 -> c >= 160 /\ c <= 191
    [] b = 237 -> c >= 128 /\ c <= 159
    [] b = 240 -> c >= 144 /\ c <= 191
    [] b = 244 -> c >= 128 /\ c <= 143
    [] OTHER   -> Cont(c)

(* [n, ok]: n bytes at p form a character, or a maximal ill-formed subpart. *)
Utf8At(s, p) ==
  LET b == s[p]
      At(i) == IF p + i <= Len(s) THEN s[p + i] ELSE 0
      w == CASE b < 128 -> 1 [] b >= 194 /\ b <= 223 -> 2 [] b >= 224 /\ b <= 239 -> 3
             [] b >= 240 /\ b <= 244 -> 4 [] OTHER -> 0
  IN  CASE w = 1 -> [n |-> 1, ok |-> TRUE]
        [] w = 0 -> [n |-> 1, ok |-> FALSE]
        [] OTHER ->
             IF ~SecondOk(b, At(1)) THEN [n |-> 1, ok |-> FALSE]
             ELSE IF w = 2 THEN [n |-> 2, ok |-> TRUE]
             ELSE IF ~Cont(At(2)) THEN [n |-> 2, ok |-> FALSE]
             ELSE IF w = 3 THEN [n |-> 3, ok |-> TRUE]
             ELSE IF ~Cont(At(3)) THEN [n |-> 3, ok |-> FALSE]
             ELSE [n |-> 4, ok |-> TRUE]

(* `step` repeated while `more` holds, at most `n` times: recursion without a stack, for long inputs. *)
Loop(n, more(_), step(_), s0) == FoldLeft(LAMBDA s, i : IF more(s) THEN step(s) ELSE s, s0, [i \in 1..n |-> i])

(* The ill-formed parts, as [from, to]. *)
IllFormed(s) ==
  Loop(Len(s), LAMBDA q : q.at <= Len(s),
       LAMBDA q : LET u == Utf8At(s, q.at)
                  IN  [at |-> q.at + u.n, bad |-> IF u.ok THEN q.bad ELSE Append(q.bad, [from |-> q.at, to |-> q.at + u.n - 1])],
       [at |-> 1, bad |-> <<>>]).bad

AllAscii(s) == \A i \in 1..Len(s) : s[i] < 128
Lossy(s) ==
  IF AllAscii(s) THEN s
  ELSE LET bad == IllFormed(s)
           all == FoldLeft(LAMBDA q, x : [at |-> x.to + 1, out |-> q.out \o SubSeq(s, q.at, x.from - 1) \o Replacement],
                           [at |-> 1, out |-> <<>>], bad)
       IN  IF bad = <<>> THEN s ELSE all.out \o SubSeq(s, all.at, Len(s))

Concat(ss) == FoldLeft(LAMBDA a, x : a \o x, <<>>, ss)
=============================================================================
