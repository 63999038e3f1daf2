----------------------------- MODULE LuckyTrace -----------------------------
\* One call: transport, shape, prompts, n as in Lucky; inner, the prompt of the
\* inner generator; queries, the queries the service got; asked, how the inner
\* generator was asked; err and out, the outcome.
EXTENDS Lucky, Judge
Verdict(e) ==
    IF e.asked # 1 THEN "inner"
    ELSE IF e.transport # "no-module" /\ Len(e.queries) # 1 THEN "requests"
    ELSE IF e.transport # "no-module" /\ ~QueryOk(e.inner, e.queries[1]) THEN "query"
    ELSE IF OutcomeOk(e.transport, e.shape, e.prompts, e.n, e.err, e.out) THEN "ok" ELSE "outcome"
Next == Consume(Verdict)
Spec == TraceInit /\ [][Next]_<<l, verdict>>
=============================================================================
