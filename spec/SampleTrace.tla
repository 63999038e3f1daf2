---------------------------- MODULE SampleTrace -----------------------------
\* Trace validation of sampling: s template, lib library, m mode, n limit,
\* k syntax, ws, out the prompts the real code produced.
EXTENDS Semantics, Judge
Limit == 600
CtxOf(e) == BindAll([MkCtx(e.m, e.lib, e.k, e.ws) EXCEPT !.unk = IF e.unk = "" THEN NoneC ELSE IF e.unkc THEN ParseText(e.k, e.unk) ELSE Lit(e.unk)],
                    [i \in 1..Len(e.vars) |-> [n |-> e.vars[i].n, v |-> ParseText(e.k, e.vars[i].s)]])
Verdict(e) ==
    LET x == CtxOf(e)
        c == ParseText(x.K, e.s)
        ss == IF e.s = "" THEN {<<>>} ELSE Sample(c, x, e.n)
    IN
    IF \E v \in Range(x.vars) : v.t = "bad" THEN "skip"
    ELSE IF TooLarge(c, x, Limit) THEN "skip"
    ELSE IF e.n = 0   \* nothing, though a broken template may be reported at once
    THEN IF e.out = <<>> \/ (Len(e.out) = 1 /\ IsErr(e.out[1]) /\ e.s # "" /\
                             \E s \in Sample(c, x, 1) : \E i \in 1..Len(s) : e.out[1] \in s[i])
         THEN "ok" ELSE "count"
    ELSE IF Undecided(ss) THEN "skip"
    ELSE IF \E s \in ss : Fits(e.out, s) THEN "ok"
    ELSE IF \A s \in ss : Len(s) # Len(e.out) THEN "count"
    ELSE "prompts"
Next == Consume(Verdict)
Spec == TraceInit /\ [][Next]_<<l, verdict>>
=============================================================================
