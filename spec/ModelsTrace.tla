---------------------------- MODULE ModelsTrace -----------------------------
\* One history: ops, and seen, what the real generators did at each step.
EXTENDS Models, Judge
RECURSIVE Check(_, _, _)
Check(e, i, st) ==
    IF i > Len(e.ops) THEN "ok"
    ELSE LET s == Seen(st, e.ops[i])
             o == e.seen[i]
         IN IF o.res # s.res THEN "result" \o ToString(i)
            ELSE IF o.loads # s.loads THEN "loads" \o ToString(i)
            ELSE Check(e, i + 1, After(st, e.ops[i]))
Verdict(e) == IF Len(e.seen) # Len(e.ops) THEN "error" ELSE Check(e, 1, [gens |-> [s \in 1..9 |-> ""], loaded |-> ""])
Next == Consume(Verdict)
Spec == TraceInit /\ [][Next]_<<l, verdict>>
=============================================================================
