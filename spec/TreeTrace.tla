----------------------------- MODULE TreeTrace ------------------------------
\* Trace validation of trees of commands put together by hand: c the tree
\* (bounds as given), and otherwise as in SampleTrace; kept says whether the
\* tree was the same afterwards.
EXTENDS Trees, Judge
Limit == 600
CtxOf(e) == BindAll(MkCtx(e.m, e.lib, e.k, e.ws), [i \in 1..Len(e.vars) |-> [n |-> e.vars[i].n, v |-> Norm(e.vars[i].c)]])
Verdict(e) ==
    LET x == CtxOf(e)
        c == Norm(e.c)
        ss == Sample(c, x, e.n)
    IN
    IF ~e.kept THEN "kept"
    ELSE IF TooLarge(c, x, Limit) THEN "skip"
    ELSE IF e.n = 0   \* nothing, though what cannot be started may be reported at once
         THEN IF e.out = <<>> \/ (Len(e.out) = 1 /\ IsErr(e.out[1]) /\
                                  \E s \in Sample(c, x, 1) : \E i \in 1..Len(s) : e.out[1] \in s[i])
              THEN "ok" ELSE "count"
    ELSE IF Undecided(ss) THEN "skip"
    ELSE IF \E s \in ss : Fits(e.out, s) THEN "ok"
    ELSE IF \A s \in ss : Len(s) # Len(e.out) THEN "count"
    ELSE "prompts"
Next == Consume(Verdict)
Spec == TraceInit /\ [][Next]_<<l, verdict>>
=============================================================================
