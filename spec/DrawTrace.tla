----------------------------- MODULE DrawTrace ------------------------------
\* Trace validation of many random draws of one prompt: s template, lib
\* library, draws their number, counts the number of times each prompt came up.
\* Two readings of the same observation: support (property C03) and
\* frequencies (property C05), selected by e.want.
EXTENDS Chance, Judge
Limit == 400
CtxOf(e) == [MkCtx("R", e.lib, e.k, e.ws) EXCEPT !.unk = IF e.unk = "" THEN NoneC ELSE Lit(e.unk)]
Count(e, o) == LET I == {i \in 1..Len(e.counts) : e.counts[i].s = o}
               IN IF I = {} THEN 0 ELSE e.counts[CHOOSE i \in I : TRUE].n
Verdict(e) ==
    LET x == CtxOf(e)
        c == ParseText(x.K, e.s)
    IN
    IF TooLarge(c, x, Limit) THEN "skip"
    ELSE LET ds == DistOf(e.s, x)
             all == {ds[i].o : i \in 1..Len(ds)}
         IN IF \E o \in all : IsErr(o) \/ o = Unclear THEN "skip"
            ELSE IF \E i \in 1..Len(e.counts) : e.counts[i].s \notin all THEN "impossible"
            ELSE IF \E i \in 1..Len(ds) : MustOccur(e.draws, ds[i].p) /\ Count(e, ds[i].o) = 0 THEN "missing"
            ELSE IF e.want = "freq" /\ \E i \in 1..Len(ds) : ~Plausible(Count(e, ds[i].o), e.draws, ds[i].p) THEN "frequency"
            ELSE "ok"
Next == Consume(Verdict)
Spec == TraceInit /\ [][Next]_<<l, verdict>>
=============================================================================
