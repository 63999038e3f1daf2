----------------------------- MODULE JinjaTrace -----------------------------
\* One call of a Jinja generator: ast and its text tpl (or a malformed tpl),
\* n, the generator's settings (k, lib, ws, limit, ctx), and out, what the
\* call returned, or an error.  need: alternatives that must have occurred
\* among the many prompts of out.
EXTENDS Jinja, Judge
Verdict(e) ==
    LET x == MkCtx("C", e.lib, e.k, e.ws)
        env == [n \in {e.ctx[i].n : i \in 1..Len(e.ctx)} |-> (CHOOSE v \in Range(e.ctx) : v.n = n).s]
    IN IF e.bad THEN IF e.out = <<"!!GeneratorException">> THEN "ok" ELSE "not-refused"
       ELSE IF e.tpl # ShowAll(e.ast) THEN "unjudged"
       ELSE IF ~Clear(e.ast, x) THEN "skip"
       ELSE LET R == TLCEval(Renders(e.ast, env, x)) IN
            IF ~Allowed(R, e.out, e.n, e.limit) THEN "prompts"
            ELSE IF e.many /\ ~\A o \in R : o.t \in Range(e.out) THEN "never-chosen"
            ELSE "ok"
Next == Consume(Verdict)
Spec == TraceInit /\ [][Next]_<<l, verdict>>
=============================================================================
