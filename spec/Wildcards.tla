----------------------------- MODULE Wildcards ------------------------------
(***************************************************************************)
(* Resolution of wildcard references against a library.                    *)
(*                                                                         *)
(* A library is a sequence of collections [n |-> full name,                *)
(* items |-> sequence of [s |-> text, w |-> weight in thousandths]].       *)
(***************************************************************************)
EXTENDS Text

RemovePrefix(s, p) == IF p # "" /\ StartsWith(s, p) THEN From(s, Len(p) + 1) ELSE s
RemoveSuffix(s, p) == IF p # "" /\ EndsWith(s, p) THEN Slice(s, 1, Len(s) - Len(p) + 1) ELSE s

\* Runs of slashes and backslashes become one slash.
RECURSIVE OneSlash(_, _)
OneSlash(s, i) ==
    IF i > Len(s) THEN ""
    ELSE IF At(s, i) \in {"/", "\\"} THEN "/" \o OneSlash(s, SkipSet(s, i, {"/", "\\"}))
    ELSE At(s, i) \o OneSlash(s, i + 1)

Clean(ref, ww) == StripSet(OneSlash(RemoveSuffix(RemovePrefix(ref, ww), ww), 1), {"/"})
Invalid(ref) == Find(ref, 1, "..") # 0

(* ------------------------------- globs --------------------------------- *)
\* A "[...]" class starting at i of pattern p: position of its "]", or 0.
ClassEnd(p, i) ==
    LET j == IF At(p, i + 1) = "!" THEN i + 2 ELSE i + 1
        k == IF At(p, j) = "]" THEN j + 1 ELSE j
    IN Find(p, k, "]")
RECURSIVE InClass(_, _, _)
InClass(body, i, c) ==
    IF i > Len(body) THEN FALSE
    ELSE IF At(body, i + 1) = "-" /\ i + 2 <= Len(body)
         THEN \/ OrdOf(At(body, i)) <= OrdOf(c) /\ OrdOf(c) <= OrdOf(At(body, i + 2))
              \/ InClass(body, i + 3, c)
         ELSE At(body, i) = c \/ InClass(body, i + 1, c)
ClassMatch(p, i, e, c) ==
    LET neg == At(p, i + 1) = "!"
        body == Slice(p, IF neg THEN i + 2 ELSE i + 1, e)
    IN IF neg THEN ~InClass(body, 1, c) ELSE InClass(body, 1, c)

RECURSIVE Glob(_, _, _, _)
Glob(p, i, s, j) ==
    IF i > Len(p) THEN j > Len(s)
    ELSE CASE At(p, i) = "*" -> Glob(p, i + 1, s, j) \/ (j <= Len(s) /\ Glob(p, i, s, j + 1))
           [] At(p, i) = "?" -> j <= Len(s) /\ Glob(p, i + 1, s, j + 1)
           [] At(p, i) = "[" ->
                LET e == ClassEnd(p, i) IN
                IF e = 0 THEN At(s, j) = "[" /\ Glob(p, i + 1, s, j + 1)
                ELSE j <= Len(s) /\ ClassMatch(p, i, e, At(s, j)) /\ Glob(p, e + 1, s, j + 1)
           [] OTHER -> j <= Len(s) /\ At(p, i) = At(s, j) /\ Glob(p, i + 1, s, j + 1)
Matches(pattern, name) == Glob(pattern, 1, name, 1)

(* ---------------------------- resolution ------------------------------- *)
\* The collections of a library that a reference denotes, by position.
MatchIdx(lib, ref, ww) ==
    LET c == Clean(ref, ww) IN
    IF Invalid(c) THEN {} ELSE {i \in 1..Len(lib) : Matches(c, lib[i].n)}
RECURSIVE Gather(_, _, _)
Gather(lib, I, i) ==
    IF i > Len(lib) THEN <<>>
    ELSE (IF i \in I THEN lib[i].items ELSE <<>>) \o Gather(lib, I, i + 1)
DenotedIdx(lib, ref, ww) ==
    LET I == MatchIdx(lib, ref, ww) IN
    IF Gather(lib, I, 1) # <<>> \/ StartsWith(ref, "**") THEN I
    ELSE MatchIdx(lib, "**/" \o RemovePrefix(ref, ww), ww)
RawValues(lib, ref, ww) == Gather(lib, DenotedIdx(lib, ref, ww), 1)

\* Settings: duplicates dropped (first kept), then sorted by text.
Arrange(items, dedup, sort) ==
    LET d == IF dedup THEN Dedupe(items) ELSE items
    IN IF sort THEN SortByText(d) ELSE d
Resolve(lib, ref, ww, dedup, sort) == Arrange(RawValues(lib, ref, ww), dedup, sort)

ToWildcard(name, ww) ==
    LET a == IF StartsWith(name, ww) THEN name ELSE ww \o name
    IN IF EndsWith(a, ww) THEN a ELSE a \o ww
=============================================================================
