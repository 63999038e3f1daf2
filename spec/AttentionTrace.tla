--------------------------- MODULE AttentionTrace ---------------------------
\* One call: inner, the prompts of the inner generator; out, what came back;
\* lo and hi, the ends of the range in thousandths.
EXTENDS Attention, Judge
RECURSIVE FirstWrong(_, _)
FirstWrong(e, i) ==
    IF i > Len(e.out) THEN "ok"
    ELSE LET v == Outcome(e.inner[i], e.out[i], e.lo, e.hi) IN IF v # "ok" THEN v ELSE FirstWrong(e, i + 1)
Verdict(e) == IF Len(e.out) # Len(e.inner) THEN "count" ELSE FirstWrong(e, 1)
Next == Consume(Verdict)
Spec == TraceInit /\ [][Next]_<<l, verdict>>
=============================================================================
