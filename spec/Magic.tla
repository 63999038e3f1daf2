------------------------------- MODULE Magic --------------------------------
(***************************************************************************)
(* The generator that lets a language model continue prompts: the tidying  *)
(* of a continuation, and the rounds in which blocked texts are asked for  *)
(* again.                                                                  *)
(***************************************************************************)
EXTENDS Text
WordC == AlNum \cup {"_"}
IsWord(c) == c \in WordC \/ c \in WideSet
LAll(s) == {SubSeq(s, i, i) : i \in 1..Len(s)}

\* ------------------------------ tidying ----------------------------------
Braces(c) == IF c = "{" THEN "(" ELSE IF c = "}" THEN ")" ELSE c
RECURSIVE MapBraces(_, _)
MapBraces(s, i) == IF i > Len(s) THEN "" ELSE Braces(SubSeq(s, i, i)) \o MapBraces(s, i + 1)
RECURSIVE FirstWord(_, _)
FirstWord(s, i) == IF i > Len(s) \/ IsWord(At(s, i)) THEN i ELSE FirstWord(s, i + 1)
RECURSIVE LastWord(_, _)
LastWord(s, i) == IF i < 1 \/ IsWord(At(s, i)) THEN i ELSE LastWord(s, i - 1)
Ends(s) == Slice(s, FirstWord(s, 1), LastWord(s, Len(s)) + 1)

RECURSIVE RunEnd(_, _)   \* end of a run of words, blanks and hyphens
RunEnd(s, i) == IF i <= Len(s) /\ (IsWord(At(s, i)) \/ At(s, i) \in WS \cup {"-"}) THEN RunEnd(s, i + 1) ELSE i

Steps == <<"open", "close", "hyphen", "comma", "underscore", "empty", "bang">>
\* Where a place to tidy that starts at i ends (0: none starts there).
PlaceEnd(k, s, i) ==
    LET w == SkipSet(s, i, WS) IN
    CASE k = "open"   -> LET e == SkipSet(s, i + 1, WS) IN IF At(s, i) = "(" /\ e > i + 1 THEN e ELSE 0
      [] k = "close"  -> IF w > i /\ At(s, w) = ")" THEN w + 1 ELSE 0
      [] k = "hyphen" -> LET e == SkipSet(s, w + 1, WS)
                         IN IF w > i /\ IsWord(At(s, i - 1)) /\ At(s, w) = "-" /\ e > w + 1 /\ IsWord(At(s, e)) THEN e ELSE 0
      [] k = "comma"  -> LET m == SkipSet(s, w, {",", ";", "."})
                             e == SkipSet(s, m, WS)
                         IN IF m > w /\ At(s, e) \in Alpha \cup {"("} THEN e ELSE 0
      [] k = "underscore" -> LET m == SkipSet(s, w, {"_"})
                                 e == SkipSet(s, m, WS)
                             IN IF w > i /\ m > w /\ e > m THEN e ELSE 0
      [] k = "empty"  -> LET a == SkipSet(s, i + 1, WS)
                             e == SkipSet(s, a + 1, WS)
                         IN IF At(s, i) = "," /\ IsWord(At(s, i - 1)) /\ At(s, a) = "," /\ IsWord(At(s, e)) THEN e ELSE 0
      [] k = "bang"   -> LET r == RunEnd(s, i)
                             e == SkipSet(s, r, {"!"})
                         IN IF IsWord(At(s, i)) /\ ~IsWord(At(s, i - 1)) /\ e > r THEN e ELSE 0
\* 1.1 to the power k, to two decimals
BangWeights == <<"1.1", "1.21", "1.33", "1.46", "1.61", "1.77", "1.95", "2.14">>
Tidied(k, s, i, e) ==
    CASE k = "open" -> "(" [] k = "close" -> ")" [] k = "hyphen" -> "-"
      [] k \in {"comma", "empty"} -> ", " [] k = "underscore" -> " "
      [] k = "bang" -> LET r == RunEnd(s, i) IN "(" \o Slice(s, i, r) \o ":" \o BangWeights[e - r] \o ")"
RECURSIVE TidyStep(_, _, _)
TidyStep(k, s, i) ==
    IF i > Len(s) THEN ""
    ELSE LET e == PlaceEnd(k, s, i)
         IN IF e > 0 THEN Tidied(k, s, i, e) \o TidyStep(k, s, e)
            ELSE SubSeq(s, i, i) \o TidyStep(k, s, i + 1)
RECURSIVE TidyFrom(_, _)
TidyFrom(s, j) == IF j > Len(Steps) THEN s ELSE TidyFrom(TidyStep(Steps[j], s, 1), j + 1)
Tidy(s) == TidyFrom(Ends(MapBraces(s, 1)), 1)
\* The original is kept out of it.
CleanUp(orig, text) ==
    IF StartsWith(text, orig) THEN orig \o " " \o Tidy(From(text, Len(orig) + 1)) ELSE Tidy(text)

\* ------------------------------ blocking ---------------------------------
LowerOf == [c \in Upper |-> CHOOSE d \in Lower : Ord[d] = Ord[c] + 32]
RECURSIVE LowFrom(_, _)
LowFrom(s, i) == IF i > Len(s) THEN "" ELSE (IF At(s, i) \in Upper THEN LowerOf[At(s, i)] ELSE At(s, i)) \o LowFrom(s, i + 1)
Low(s) == LowFrom(s, 1)
\* words: the alternatives of the blocklist
Blocked(text, words) == \E i \in 1..Len(words) : Find(Low(text), 1, Low(words[i])) > 0

\* ------------------------------- rounds ----------------------------------
\* origs: per position the number of its original; answers[o]: what the model
\* says to original o, the first time, the second time, ... (then the last
\* again).  The state: texts per position, how often each original was asked.
AnswerOf(answers, o, k) == answers[o][Min2(k, Len(answers[o]))]
RECURSIVE AskFrom(_, _, _, _, _)
AskFrom(st, todo, origs, texts, answers) ==
    IF todo = <<>> THEN st
    ELSE LET i == Head(todo)
             o == origs[i]
             k == st.asked[o] + 1
         IN AskFrom([cur |-> [st.cur EXCEPT ![i] = CleanUp(texts[o], AnswerOf(answers, o, k))], asked |-> [st.asked EXCEPT ![o] = k]],
                    Tail(todo), origs, texts, answers)
BlockedAt(cur, words) == SelectSeq([i \in 1..Len(cur) |-> i], LAMBDA i : Blocked(cur[i], words))
RECURSIVE Rounds(_, _, _, _, _, _)
Rounds(st, left, origs, texts, answers, words) ==
    LET todo == BlockedAt(st.cur, words)
    IN IF left = 0 \/ todo = <<>> THEN st
       ELSE Rounds(AskFrom(st, todo, origs, texts, answers), left - 1, origs, texts, answers, words)
Magic(origs, texts, answers, words, max) ==
    LET start == [cur |-> [i \in 1..Len(origs) |-> ""], asked |-> [o \in 1..Len(texts) |-> 0]]
    IN Rounds(AskFrom(start, [i \in 1..Len(origs) |-> i], origs, texts, answers), max, origs, texts, answers, words)
=============================================================================
