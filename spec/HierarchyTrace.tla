--------------------------- MODULE HierarchyTrace ---------------------------
\* The tree of a manager: roots as in Loading (missing: a root that is no
\* directory), names the collection names, nodes the nodes reached from the
\* root, rebuilt the names of a tree made from the root node alone.
EXTENDS Hierarchy, Judge
Given(roots) == SelectSeq(roots, LAMBDA r : "missing" \notin DOMAIN r)
Values(e, n) == e.colls[CHOOSE i \in 1..Len(e.colls) : e.colls[i].n = n].items
NodeOk(e, N, x) ==
    /\ OnceEach(x.colls, Listed(N, x.path))
    /\ OnceEach(x.kids, Children(N, x.path))
    /\ OnceEach(x.full, {Below(x.path, c) : c \in Listed(N, x.path)})
    /\ OnceEach(x.walked, Within(N, x.path))
    /\ OnceEach([i \in 1..Len(x.items) |-> x.items[i].n], Within(N, x.path))
    /\ \A i \in 1..Len(x.items) : x.items[i].items = Values(e, x.items[i].n)
Verdict(e) ==
    LET lib == TLCEval(Library(Given(e.roots)))
        want == {lib[i].n : i \in 1..Len(lib)}
        solid == {lib[i].n : i \in {j \in 1..Len(lib) : lib[j].items # <<>>}}
        N == Range(e.names)
    IN IF e.both THEN IF e.error = "!!ValueError" THEN "ok" ELSE "both-accepted"
       ELSE IF e.error # "" THEN "failed"
       ELSE IF ~(solid \subseteq N /\ N \subseteq want) THEN "names"
       ELSE IF (Len(Given(e.roots)) < Len(e.roots)) # e.warned THEN "warning"
       ELSE IF ~OnceEach([i \in 1..Len(e.nodes) |-> e.nodes[i].path], Nodes(N)) THEN "nodes"
       ELSE IF \E i \in 1..Len(e.nodes) : ~NodeOk(e, N, e.nodes[i]) THEN "node"
       ELSE IF ~OnceEach(e.rebuilt, N) THEN "rebuilt"
       ELSE IF e.unknown # "!!KeyError" THEN "unknown-name"
       ELSE "ok"
Next == Consume(Verdict)
Spec == TraceInit /\ [][Next]_<<l, verdict>>
=============================================================================
