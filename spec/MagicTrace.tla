----------------------------- MODULE MagicTrace -----------------------------
\* One call: origs, texts, answers, words and max as in Magic; out, what came
\* back; asked, how often the model was asked about each original.
EXTENDS Magic, Judge
Verdict(e) ==
    LET m == Magic(e.origs, e.texts, e.answers, e.words, e.max)
    IN IF e.err # "" THEN "error"
       ELSE IF Len(e.out) # Len(e.origs) THEN "count"
       ELSE IF e.out # m.cur THEN "text"
       ELSE IF e.asked # m.asked THEN "asked"
       ELSE "ok"
Next == Consume(Verdict)
Spec == TraceInit /\ [][Next]_<<l, verdict>>
=============================================================================
