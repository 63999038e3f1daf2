----------------------------- MODULE Hierarchy ------------------------------
(***************************************************************************)
(* The hierarchical view of a library.  A collection named a/b/c is listed *)
(* as c in the node a/b, which is the child b of the node a, itself a      *)
(* child of the root (path ""); there are no other nodes.                  *)
(***************************************************************************)
EXTENDS Loading

DirOf(n) == LET p == RFind(n, "/") IN IF p = 0 THEN "" ELSE Slice(n, 1, p)
LastOf(n) == LET p == RFind(n, "/") IN IF p = 0 THEN n ELSE From(n, p + 1)
Below(d, x) == IF d = "" THEN x ELSE d \o "/" \o x
RECURSIVE Ancestors(_)
Ancestors(d) == IF d = "" THEN {""} ELSE {d} \cup Ancestors(DirOf(d))
Nodes(N) == {""} \cup UNION {Ancestors(DirOf(n)) : n \in N}
Listed(N, d) == {LastOf(n) : n \in {m \in N : DirOf(m) = d}}
Children(N, d) == {LastOf(e) : e \in {f \in Nodes(N) : f # "" /\ DirOf(f) = d}}
Within(N, d) == {n \in N : d \in Ancestors(DirOf(n))}
OnceEach(xs, S) == Range(xs) = S /\ Len(xs) = Cardinality(S)
=============================================================================
