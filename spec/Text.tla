-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Character-level text operators shared by every module: TLA+ strings are *)
(* treated as sequences of one-character strings.                          *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

At(s, i) == IF i < 1 \/ i > Len(s) THEN "" ELSE SubSeq(s, i, i)

StartsAt(s, i, tok) ==
    /\ i >= 1
    /\ i + Len(tok) - 1 <= Len(s)
    /\ SubSeq(s, i, i + Len(tok) - 1) = tok

\* From position i to the end ("" if i is past the end).
From(s, i) == IF i > Len(s) THEN "" ELSE SubSeq(s, i, Len(s))
\* The text in [i, j), i.e. j excluded.
Slice(s, i, j) == IF j <= i THEN "" ELSE SubSeq(s, i, j - 1)

StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p

WS == {" ", "\n", "\t", "\r"}
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Lower == {"a","b","c","d","e","f","g","h","i","j","k","l","m",
          "n","o","p","q","r","s","t","u","v","w","x","y","z"}
Upper == {"A","B","C","D","E","F","G","H","I","J","K","L","M",
          "N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Alpha == Lower \cup Upper
AlNum == Alpha \cup Digits

\* All characters the specification can order, in code-point order.
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CharSet == {SubSeq(Ascii, i, i) : i \in 1..Len(Ascii)}
Ord == [c \in CharSet |-> CHOOSE i \in 1..Len(Ascii) : SubSeq(Ascii, i, i) = c]
\* Further characters, in code-point order (kept in a JSON file, as this one is ASCII).
Wide == JsonDeserialize("chars.json").text
WideSet == {SubSeq(Wide, i, i) : i \in 1..Len(Wide)}
WideOrd == [c \in WideSet |-> CHOOSE i \in 1..Len(Wide) : SubSeq(Wide, i, i) = c]
OrdOf(c) == IF c \in CharSet THEN Ord[c]
            ELSE IF c \in {"\n", "\t", "\r"} THEN 0
            ELSE IF c \in WideSet THEN 1000 + WideOrd[c]
            ELSE 9999

\* All whitespace; the grammar itself knows WS only.
BlankChars == JsonDeserialize("chars.json").blank
Blank == WS \cup {SubSeq(BlankChars, i, i) : i \in 1..Len(BlankChars)}

DigitVal == [c \in Digits |-> Ord[c] - Ord["0"]]

RECURSIVE NumAcc(_, _, _)
NumAcc(s, i, acc) == IF i > Len(s) THEN acc ELSE NumAcc(s, i + 1, acc * 10 + DigitVal[At(s, i)])
Num(s) == NumAcc(s, 1, 0)

\* First position >= i whose character is not in set C (Len + 1 if none).
RECURSIVE SkipSet(_, _, _)
SkipSet(s, i, C) == IF i <= Len(s) /\ SubSeq(s, i, i) \in C THEN SkipSet(s, i + 1, C) ELSE i

\* First position >= i where tok occurs (0 if none).
RECURSIVE Find(_, _, _)
Find(s, i, tok) == IF i > Len(s) THEN 0
                   ELSE IF StartsAt(s, i, tok) THEN i ELSE Find(s, i + 1, tok)

RECURSIVE RTrimPos(_, _, _)
RTrimPos(s, j, C) == IF j >= 1 /\ SubSeq(s, j, j) \in C THEN RTrimPos(s, j - 1, C) ELSE j
StripSet(s, C) ==
    LET i == SkipSet(s, 1, C)
        j == RTrimPos(s, Len(s), C)
    IN IF j < i THEN "" ELSE SubSeq(s, i, j)
Strip(s) == StripSet(s, Blank)

RECURSIVE SplitFrom(_, _, _)
SplitFrom(s, i, sep) ==
    LET j == Find(s, i, sep)
    IN IF j = 0 THEN <<From(s, i)>>
       ELSE <<Slice(s, i, j)>> \o SplitFrom(s, j + Len(sep), sep)
Split(s, sep) == SplitFrom(s, 1, sep)

RECURSIVE WordsFrom(_, _)
WordsFrom(s, i) ==
    LET a == SkipSet(s, i, Blank)
    IN IF a > Len(s) THEN <<>>
       ELSE LET b == CHOOSE b \in (a + 1)..(Len(s) + 1) :
                        /\ \A k \in a..(b - 1) : SubSeq(s, k, k) \notin Blank
                        /\ (b = Len(s) + 1 \/ SubSeq(s, b, b) \in Blank)
            IN <<Slice(s, a, b)>> \o WordsFrom(s, b)
Words(s) == WordsFrom(s, 1)

RECURSIVE JoinFrom(_, _, _)
JoinFrom(xs, i, sep) ==
    IF i > Len(xs) THEN ""
    ELSE IF i = Len(xs) THEN xs[i]
    ELSE xs[i] \o sep \o JoinFrom(xs, i + 1, sep)
Join(xs, sep) == JoinFrom(xs, 1, sep)
Concat(xs) == Join(xs, "")

\* Whitespace squashing: single spaces between words, none at the ends.
Squash(s) == Join(Words(s), " ")

\* A selection is joined by its separator; one leading and one trailing
\* separator (left behind by empty members) are removed, but a single result
\* is left exactly as it is.
Joined(xs, sep) ==
    IF Len(xs) = 1 THEN xs[1]
    ELSE LET j == Join(xs, sep)
             a == IF sep # "" /\ StartsWith(j, sep) THEN From(j, Len(sep) + 1) ELSE j
         IN IF sep # "" /\ EndsWith(a, sep) THEN Slice(a, 1, Len(a) - Len(sep) + 1) ELSE a

\* Wrap markers.
Ellipses == {"᠁", "…", "⋮", "⋯", "⋰", "⋱", "︙"}
MarkerEnd(s, i) ==  \* end (exclusive) of a wrap marker starting at i, or i
    IF At(s, i) \in Ellipses THEN SkipSet(s, i, Ellipses)
    ELSE LET e == SkipSet(s, i, {"."}) IN IF e - i >= 3 THEN e ELSE i
RECURSIVE MarkerPos(_, _)
MarkerPos(s, i) ==  \* position of the first marker, or 0
    IF i > Len(s) THEN 0 ELSE IF MarkerEnd(s, i) > i THEN i ELSE MarkerPos(s, i + 1)
WrapText(w, inner) ==
    LET p == MarkerPos(w, 1)
    IN IF p = 0 THEN w \o inner
       ELSE Slice(w, 1, p) \o inner \o From(w, MarkerEnd(w, p))

\* Code-point order on strings.
RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) ==
    IF i > Len(b) THEN FALSE
    ELSE IF i > Len(a) THEN TRUE
    ELSE LET x == OrdOf(SubSeq(a, i, i)) y == OrdOf(SubSeq(b, i, i))
         IN IF x # y THEN x < y ELSE LessFrom(a, b, i + 1)
Less(a, b) == LessFrom(a, b, 1)

\* Stable sort of a sequence of records by their text field s.
SortByText(xs) == SortSeq(xs, LAMBDA a, b : Less(a.s, b.s))

\* Keep the first of equal elements.
RECURSIVE DedupeAcc(_, _)
DedupeAcc(xs, acc) ==
    IF xs = <<>> THEN acc
    ELSE DedupeAcc(Tail(xs), IF \E i \in 1..Len(acc) : acc[i] = Head(xs) THEN acc ELSE Append(acc, Head(xs)))
Dedupe(xs) == DedupeAcc(xs, <<>>)

RECURSIVE Flatten(_)
Flatten(xss) == IF xss = <<>> THEN <<>> ELSE Head(xss) \o Flatten(Tail(xss))

Take(xs, n) == SubSeq(xs, 1, IF n < Len(xs) THEN n ELSE Len(xs))
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Range(f) == {f[i] : i \in DOMAIN f}
=============================================================================
