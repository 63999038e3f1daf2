----------------------------- MODULE Attention ------------------------------
(***************************************************************************)
(* Emphasis with the built-in chunker: a prompt's phrases are its parts    *)
(* between punctuation marks, without those made of digits or punctuation  *)
(* only.  One phrase is emphasised wherever it occurs.  Weights are in     *)
(* thousandths.                                                            *)
(***************************************************************************)
EXTENDS Text
Marks == {",", ";", ":", ".", "?", "!", "(", ")"}
Punct == CharSet \ (AlNum \cup {" "})
AllIn(s, C) == \A i \in 1..Len(s) : SubSeq(s, i, i) \in C
IsPhrase(s) == ~(s # "" /\ AllIn(s, Digits)) /\ ~AllIn(s, Punct)
RECURSIVE Parts(_, _, _)
Parts(s, from, i) ==   \* parts of s[from..] between marks, looking at i
    IF i > Len(s) THEN <<Strip(Slice(s, from, i))>>
    ELSE IF SubSeq(s, i, i) \in Marks THEN <<Strip(Slice(s, from, i))>> \o Parts(s, i + 1, i + 1)
    ELSE Parts(s, from, i + 1)
Phrases(s) == {p \in Range(Parts(s, 1, 1)) : IsPhrase(p)}

RECURSIVE ReplaceFrom(_, _, _, _)
ReplaceFrom(s, i, a, b) ==
    IF i > Len(s) THEN ""
    ELSE IF StartsAt(s, i, a) THEN b \o ReplaceFrom(s, i + Len(a), a, b)
    ELSE SubSeq(s, i, i) \o ReplaceFrom(s, i + 1, a, b)
Replace(s, a, b) == ReplaceFrom(s, 1, a, b)
Emphasised(s, p, w) == Replace(s, p, "(" \o p \o ":" \o w \o ")")

\* The weight written as w (at most two decimals) in thousandths, or none.
NoWeight == 0 - 1000000
WeightOf(w0) ==
    LET neg == StartsWith(w0, "-")
        w == IF neg THEN From(w0, 2) ELSE w0
        d == Find(w, 1, ".")
        a == IF d = 0 THEN w ELSE Slice(w, 1, d)
        b == IF d = 0 THEN "" ELSE From(w, d + 1)
        v == IF a = "" \/ Len(a) > 4 \/ Len(b) > 2 \/ (d # 0 /\ b = "") \/ ~AllIn(a, Digits) \/ ~AllIn(b, Digits) THEN NoWeight
             ELSE Num(a) * 1000 + (IF b = "" THEN 0 ELSE IF Len(b) = 1 THEN Num(b) * 100 ELSE Num(b) * 10)
    IN IF v = NoWeight \/ ~neg THEN v ELSE 0 - v
\* \div and the rounding of the ends to two decimals, for negative numbers too
Down(x) == 10 * (x \div 10)
Up(x) == 0 - 10 * ((0 - x) \div 10)

\* o is prompt s with emphasis between lo and hi.
Outcome(s, o, lo, hi) ==
    LET ps == Phrases(s)
        CanBe(p) ==
            LET at == Find(s, 1, p)
                from == at + Len(p) + 2            \* where the weight starts in o
                to == Find(o, from, ")")
                w == Slice(o, from, to)
            IN /\ to > from
               /\ WeightOf(w) # NoWeight
               /\ WeightOf(w) >= Down(Min2(lo, hi)) /\ WeightOf(w) <= Up(Max2(lo, hi))
               /\ o = Emphasised(s, p, w)
    IN IF ps = {} THEN (IF o = s THEN "ok" ELSE "changed")
       ELSE IF o = s THEN "not-emphasised"
       ELSE IF \E p \in ps : CanBe(p) THEN "ok" ELSE "emphasis"
=============================================================================
