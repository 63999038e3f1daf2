----------------------------- MODULE BatchTrace -----------------------------
\* Trace validation of the batched generator: calls are the lists its inner
\* generator returned, out what the batched generator returned.
EXTENDS Semantics, Judge
Verdict(e) ==
    LET x == MkCtx(e.m, e.lib, e.k, FALSE)
        c == ParseText(x.K, e.s)
        ss == IF e.s = "" \/ TooLarge(c, x, 600) THEN {<<>>} ELSE Sample(c, x, Max2(e.n, 1))
    IN IF \E i \in 1..Len(e.out) : IsErr(e.out[i]) THEN
            (IF \E s \in ss : \E i \in 1..Len(s) : \E o \in s[i] : IsErr(o) THEN "ok" ELSE "error")
       ELSE IF Len(e.calls) # e.batches THEN "batches"
       ELSE IF e.out # Flatten(e.calls) THEN "order"
       ELSE IF TooLarge(c, x, 600) \/ Undecided(ss) THEN "skip"
       ELSE IF \A i \in 1..Len(e.calls) : \E s \in ss : IF e.n = 0 THEN e.calls[i] = <<>> ELSE Fits(e.calls[i], s) THEN "ok"
       ELSE "prompts"
Next == Consume(Verdict)
Spec == TraceInit /\ [][Next]_<<l, verdict>>
=============================================================================
