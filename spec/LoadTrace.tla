----------------------------- MODULE LoadTrace ------------------------------
\* Loading of wildcard files: roots as in Loading, names the collection names
\* the real manager knows, colls what it says each of them holds.
EXTENDS Loading, Judge
Verdict(e) ==
    LET lib == TLCEval(Library(e.roots))
        want == {lib[i].n : i \in 1..Len(lib)}
        solid == {lib[i].n : i \in {j \in 1..Len(lib) : lib[j].items # <<>>}}
        got == Range(e.names)
        Of(n) == lib[CHOOSE i \in 1..Len(lib) : lib[i].n = n].items
    IN IF e.error # "" THEN "loading-failed"
       ELSE IF ~(solid \subseteq got) THEN "collection-missing"
       ELSE IF ~(got \subseteq want) THEN "collection-invented"
       ELSE IF \E i \in 1..Len(e.colls) : e.colls[i].items # Of(e.colls[i].n) THEN "values"
       ELSE IF \E i \in 1..Len(e.colls) : e.colls[i].looked # Arrange(Of(e.colls[i].n), TRUE, TRUE) /\ Of(e.colls[i].n) # <<>>
            THEN "lookup"
       ELSE "ok"
Next == Consume(Verdict)
Spec == TraceInit /\ [][Next]_<<l, verdict>>
=============================================================================
