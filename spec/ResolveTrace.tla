---------------------------- MODULE ResolveTrace ----------------------------
\* Reference resolution: lib the library, ref the reference; values, matched
\* (the items of every matching collection), file (of get_file: a sequence with
\* the items, empty if it was refused) as observed; disk tells that
\* the order of the collections is up to the file system.
EXTENDS Wildcards, Judge
Orders(S) ==   \* all orders of a small set
    LET RECURSIVE P(_)
        P(T) == IF T = {} THEN {<<>>} ELSE UNION {{<<i>> \o p : p \in P(T \ {i})} : i \in T}
    IN P(S)
Gathered(lib, p) == Flatten([k \in 1..Len(p) |-> lib[p[k]].items])
Asc(S) == CHOOSE p \in Orders(S) : \A i, j \in 1..Len(p) : i < j => p[i] < p[j]
Answers(e) ==
    LET I == DenotedIdx(e.lib, e.ref, e.ww)
        os == IF e.disk THEN Orders(I) ELSE {Asc(I)}
    IN {Arrange(Gathered(e.lib, p), e.dedup, e.sort) : p \in os}
Bag(xs) == [x \in Range(xs) |-> Cardinality({i \in 1..Len(xs) : xs[i] = x})]
Verdict(e) ==
    LET I == MatchIdx(e.lib, e.ref, e.ww)
        c == Clean(e.ref, e.ww)
        named == {i \in 1..Len(e.lib) : e.lib[i].n = c}
    IN IF Cardinality(I) > 6 \/ Cardinality(DenotedIdx(e.lib, e.ref, e.ww)) > (IF e.disk THEN 5 ELSE 6) THEN "skip"
       ELSE IF Bag([k \in 1..Len(e.matched) |-> e.matched[k]]) #
               Bag([k \in 1..Cardinality(I) |-> e.lib[Asc(I)[k]].items]) THEN "matching"
       ELSE IF e.values \notin Answers(e) THEN "values"
       ELSE IF e.wrapped # ToWildcard(e.ref, e.ww) THEN "wrapped-name"
       ELSE IF e.is # (StartsWith(e.ref, e.ww) /\ EndsWith(e.ref, e.ww)) THEN "is-wildcard"
       ELSE IF Invalid(c) \/ named = {}
            THEN IF e.file = <<>> THEN "ok" ELSE "file-invented"
       ELSE IF e.file # << e.lib[CHOOSE i \in named : TRUE].items >> THEN "file"
       ELSE "ok"
Next == Consume(Verdict)
Spec == TraceInit /\ [][Next]_<<l, verdict>>
=============================================================================
