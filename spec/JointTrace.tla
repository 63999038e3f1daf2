----------------------------- MODULE JointTrace -----------------------------
\* Trace validation of many runs of one template: rows, the lists of prompts
\* that came up (out) and how often (n).  Each run must be one that the
\* template denotes, and prompts that are drawn anew must not be a function of
\* one another.
EXTENDS Semantics, Judge
Limit == 600
Often == 10
RECURSIVE Total(_, _)
Total(rows, i) == IF i = 0 THEN 0 ELSE rows[i].n + Total(rows, i - 1)
\* How often prompt i was o.
CountAt(e, i, o) == LET r == SelectSeq(e.rows, LAMBDA r : r.out[i] = o) IN Total(r, Len(r))
OftenAt(e, i, S) == {o \in S : CountAt(e, i, o) >= Often}
Tied(e, i, j, S) ==   \* prompt j is determined by prompt i
    \A o \in OftenAt(e, i, S) : Cardinality({e.rows[r].out[j] : r \in {r \in 1..Len(e.rows) : e.rows[r].out[i] = o}}) = 1
\* Templates whose random parts are drawn anew for every prompt: anything in
\* random mode (without the marks of other methods), and in combinatorial mode
\* random parts next to finite ones, or inside a wrap of finite wrappers.
RECURSIVE Finite(_)
Finite(c) ==
    CASE c.t = "lit" -> TRUE
      [] c.t = "var" -> c.m = "" /\ \A i \in 1..Len(c.opts) : Finite(c.opts[i].v)
      [] c.t = "seq" -> \A i \in 1..Len(c.xs) : Finite(c.xs[i])
      [] OTHER -> FALSE
Drawn(c) == \/ c.t = "wc" /\ c.m = "R"
            \/ c.t = "var" /\ c.m = "R" /\ \A i \in 1..Len(c.opts) : Finite(c.opts[i].v)
Parts(c) == IF c.t = "seq" THEN Range(c.xs) ELSE {c}
Anew(c) == \/ c.t = "seq" /\ \A p \in Parts(c) : Finite(p) \/ Drawn(p)
           \/ c.t = "wrap" /\ Finite(c.w) /\ c.i.t = "seq" /\ \A p \in Parts(c.i) : Finite(p) \/ Drawn(p)
Fresh(e, c) == IF e.m = "R" THEN \A i \in 1..Len(e.s) : At(e.s, i) # "@" ELSE Anew(c)
Verdict(e) ==
    LET x == MkCtx(e.m, e.lib, e.k, FALSE)
        c == ParseText(x.K, e.s)
    IN IF TooLarge(c, x, Limit) THEN "skip"
    ELSE LET ss == Sample(c, x, e.want) IN
    IF Undecided(ss) \/ Cardinality(ss) # 1 THEN "skip"
    ELSE LET s == CHOOSE s \in ss : TRUE IN
    IF (\E i \in 1..Len(s) : \E o \in s[i] : IsErr(o)) \/ ~Fresh(e, c) THEN "skip"
    ELSE IF \E r \in 1..Len(e.rows) : ~Fits(e.rows[r].out, s) THEN "prompts"
    ELSE IF \E i, j \in 1..Len(s) :
              /\ i # j
              /\ Cardinality(OftenAt(e, i, s[i])) >= 2 /\ Cardinality(OftenAt(e, j, s[j])) >= 2
              /\ Tied(e, i, j, s[i])
         THEN "tied"
    ELSE "ok"
Next == Consume(Verdict)
Spec == TraceInit /\ [][Next]_<<l, verdict>>
=============================================================================
