---------------------------- MODULE SessionTrace ----------------------------
\* Live runs in one process.  lib: library; ctxs: contexts; runs: each with
\* the template s, its context c, its limit n (prompts asked for), out (what
\* it yielded among the others), solo (what the same run yielded alone, from
\* fresh objects) and exact (its source of randomness, if any, is its own);
\* before and after: the shared templates, contexts and library.
EXTENDS Semantics, Judge
Limit == 400
K == DefaultSyntax
CtxOf(e, c) == BindAll([MkCtx(c.m, e.lib, K, c.ws) EXCEPT !.unk = IF c.unk = "" THEN NoneC ELSE Lit(c.unk)],
                       [i \in 1..Len(c.vars) |-> [n |-> c.vars[i].n, v |-> ParseText(K, c.vars[i].s)]])
RunOk(e, r) ==
    LET x == CtxOf(e, e.ctxs[r.c])
        c == ParseText(K, r.s)
        ss == Sample(c, x, r.n)
    IN IF r.exact /\ r.out # r.solo THEN "not-as-alone"
       \* where exactly a broken template fails is not this property's concern
       ELSE IF r.n = 0 \/ (r.out # <<>> /\ IsErr(r.out[Len(r.out)])) \/ r.s = "" \/ TooLarge(c, x, Limit) \/ Undecided(ss) THEN "ok"
       ELSE IF \E s \in ss : Fits(r.out, s) THEN "ok"
       ELSE "prompts"
RECURSIVE Judged(_, _)
Judged(e, i) == IF i > Len(e.runs) THEN "ok"
               ELSE LET v == RunOk(e, e.runs[i]) IN IF v # "ok" THEN v ELSE Judged(e, i + 1)
Verdict(e) == IF e.before # e.after THEN "changed" ELSE Judged(e, 1)
Next == Consume(Verdict)
Spec == TraceInit /\ [][Next]_<<l, verdict>>
=============================================================================
