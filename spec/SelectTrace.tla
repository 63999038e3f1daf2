---------------------------- MODULE SelectTrace -----------------------------
\* Trace validation of selections among many distinct literals, where listing
\* all selections is out of reach: s is a template consisting of one variant,
\* out the prompts drawn from it at random.  Options contain no separator.
EXTENDS Semantics, Judge
CtxOf(e) == MkCtx("R", e.lib, e.k, FALSE)
Of(c, x) ==
    LET v == IF c.t = "seq" THEN c.xs[1] ELSE c IN
    IF Len(v.opts) = 1 /\ v.opts[1].v.t = "wc" THEN AsVariant(v, v.opts[1].v.path.s, x) ELSE v
TextOf(o) == IF o.v.t = "lit" THEN o.v.s
             ELSE IF o.v.t = "seq" /\ Len(o.v.xs) = 1 /\ o.v.xs[1].t = "lit" THEN o.v.xs[1].s ELSE "??"
Decided(v) ==
    /\ \A i \in 1..Len(v.opts) : /\ TextOf(v.opts[i]) \notin {"", "??"}
                                 /\ Find(TextOf(v.opts[i]), 1, v.sep) = 0
    /\ \A i, j \in 1..Len(v.opts) : i < j => TextOf(v.opts[i]) # TextOf(v.opts[j])
    /\ v.sep # ""
    /\ ClipHi(v) <= Cardinality({i \in 1..Len(v.opts) : v.opts[i].w > 0})
Legal(v, o) ==
    IF o = "" THEN ClipLo(v) = 0
    ELSE LET ps == Split(o, v.sep)
             pos == {i \in 1..Len(v.opts) : v.opts[i].w > 0}
         IN /\ ClipLo(v) <= Len(ps) /\ Len(ps) <= ClipHi(v)
            /\ \A i \in 1..Len(ps) : \E j \in pos : TextOf(v.opts[j]) = ps[i]
            /\ \A i, j \in 1..Len(ps) : i < j => ps[i] # ps[j]
Verdict(e) ==
    LET x == CtxOf(e)
        c == ParseText(x.K, e.s)
        v == Of(c, x)
    IN IF ~Decided(v) THEN "skip"
       ELSE IF Len(e.out) # e.n THEN "count"
       ELSE IF \A i \in 1..Len(e.out) : Legal(v, e.out[i]) THEN "ok"
       ELSE "selection"
Next == Consume(Verdict)
Spec == TraceInit /\ [][Next]_<<l, verdict>>
=============================================================================
