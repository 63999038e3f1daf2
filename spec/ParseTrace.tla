----------------------------- MODULE ParseTrace -----------------------------
\* Trace validation of the parser: s is the template, k the syntax, ast the
\* projected result of the real parser ([t |-> "bad"] if it was rejected).
EXTENDS Render, Judge
Verdict(e) ==
    LET a == ParseText(e.k, e.s) IN
    IF a = e.ast \/ Norm(a) = Norm(e.ast) THEN "ok"
    ELSE IF a.t = "bad" THEN "accepted-invalid"
    ELSE IF e.ast.t = "bad" THEN "rejected-valid"
    ELSE "structure"
Next == Consume(Verdict)
Spec == TraceInit /\ [][Next]_<<l, verdict>>
=============================================================================
