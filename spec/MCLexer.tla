------------------------------ MODULE MCLexer ------------------------------
(***************************************************************************)
(* Texts that differ from a proto3 file in one place (constant Mode):      *)
(*   gaps      what stands between two tokens is any short string          *)
(*   typos     a character is missing, doubled or another one              *)
(*   comments  the same few places with longer strings of comment signs    *)
(* The lexer is checked against a definition of layout that does not read  *)
(* character by character; every text is printed for the real parser.      *)
(***************************************************************************)
EXTENDS Meaning, Json

CONSTANTS Mode, Bound, Emit

Samples == ndJsonDeserialize("samples.ndjson")
Words(k) == Samples[k].words
RECURSIVE JoinFrom(_, _, _, _)
(* The words with a blank between any two, but f after word g. *)
JoinFrom(w, i, g, f) == IF i > Len(w) THEN <<>>
                        ELSE w[i] \o (IF i = g THEN f ELSE <<32>>) \o JoinFrom(w, i + 1, g, f)
Texts == [k \in 1..Len(Samples) |-> JoinFrom(Words(k), 1, 0, <<>>)]
Tokens == [k \in 1..Len(Samples) |-> Lex(Texts[k]).toks]

(* blank, line ends, letters, digits and signs that mean something somewhere *)
Alphabet == IF Mode = "comments" THEN {47, 42, 10, 32, 34, 59}
            ELSE {10, 13, 32, 9, 12, 47, 42, 97, 49, 95, 46, 59, 34, 39, 45, 43, 61, 123, 125, 44, 40, 91, 92, 48, 101}
                 \cup (IF Mode = "typos" /\ Bound = 1 THEN {0, 127, 35, 36, 64, 60, 62, 41, 93, 33, 63, 58, 88, 90} ELSE {})
(* Characters of more than one byte: a no-break space, a letter, a line separator, a wide space, a cloud, a byte order mark. *)
Wide == IF Mode = "typos" /\ Bound = 1 THEN {<<194, 160>>, <<195, 169>>, <<226, 128, 168>>, <<227, 128, 128>>, <<240, 159, 140, 168>>, <<239, 187, 191>>}
        ELSE {<<226, 128, 168>>, <<239, 187, 191>>}
Characters == {<<x>> : x \in Alphabet} \cup (IF Mode = "comments" THEN {} ELSE Wide)
Gaps(k) == IF Mode = "comments" THEN {4, 12, 20} ELSE 1..Len(Words(k))

(* Characters, not bytes. *)
Count(c) == Cardinality({i \in 1..Len(c) : c[i] \notin 128..191})

VARIABLES k, g, f
vars == <<k, g, f>>
Init == /\ k \in 1..Len(Samples) /\ f = <<>>
        /\ g \in IF Mode = "typos" THEN 1..Len(Texts[k]) ELSE Gaps(k)
Next == /\ Count(f) < Bound
        /\ \E x \in Characters : f' = f \o x
        /\ UNCHANGED <<k, g>>
Spec == Init /\ [][Next]_vars

Change(t, i, new) == SubSeq(t, 1, i - 1) \o new \o SubSeq(t, i + 1, Len(t))
Now == IF Mode = "typos" THEN Change(Texts[k], g, f) ELSE JoinFrom(Words(k), 1, g, f)

(* What layout is, without a machine. *)
RECURSIVE Layout(_)
Layout(c) ==
  \/ c = <<>>
  \/ IsSpace(c[1]) /\ Layout(Tail(c))
  \/ /\ Len(c) >= 2 /\ c[1] = 47 /\ c[2] = 47
     /\ \E n \in 3..Len(c) : /\ c[n] = 10 /\ \A j \in 3..(n - 1) : c[j] # 10
                             /\ Layout(SubSeq(c, n + 1, Len(c)))
  \/ /\ Len(c) >= 4 /\ c[1] = 47 /\ c[2] = 42
     /\ \E n \in 4..Len(c) : /\ c[n - 1] = 42 /\ c[n] = 47 /\ \A j \in 4..(n - 1) : ~(c[j - 1] = 42 /\ c[j] = 47)
                             /\ Layout(SubSeq(c, n + 1, Len(c)))

Wordy(t) == t.t \in {"id", "int", "float"}
(* The tokens stay exactly when there is layout in the gap, and some where two words or numbers would become one. *)
LayoutOnly ==
  Mode # "typos" =>
    LET x == Lex(Now)
        a == Tokens[k][g]
        joins == g < Len(Tokens[k]) /\
                 LET b == Tokens[k][g + 1] IN
                 \/ Wordy(a) /\ Wordy(b)
                 \/ a.t \in {"int", "float"} /\ b.s = "."
                 \/ a.s = "." /\ b.t \in {"int", "float"}
        last == g = Len(Tokens[k])
        open == last /\ \E i \in 0..Len(f) : Layout(SubSeq(f, 1, i)) /\ i + 2 <= Len(f) /\ f[i + 1] = 47 /\ f[i + 2] = 47
    IN  (x.ok /\ ~x.unclear /\ x.toks = Tokens[k]) <=> ((Layout(f) /\ (f # <<>> \/ ~joins)) \/ open)

(* Reading is compositional: after a blank, the rest is read as if it stood alone. *)
Blank(t) == {i \in 1..Len(t) : t[i] = 10}
PiecesOf(t) ==
  LET x == Lex(t) IN
  x.ok => \A i \in Blank(t) :
    LET l == Lex(SubSeq(t, 1, i)) r == Lex(SubSeq(t, i + 1, Len(t))) IN
    (l.ok /\ r.ok) => x.toks = l.toks \o r.toks
Pieces == PiecesOf(Now)

Sane == Texts # <<>> /\ \A i \in 1..Len(Samples) : Len(Tokens[i]) = Len(Words(i)) /\ Class(Read(<<Tokens[i]>>), Index(Read(<<Tokens[i]>>)), {}) = "consistent"
ASSUME Sane

Vectors == Emit => PrintT("VEC " \o ToJson([texts |-> <<Now>>]))
=============================================================================
