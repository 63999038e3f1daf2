---------------------------- MODULE MCHierarchy -----------------------------
(***************************************************************************)
(* Building the hierarchy by inserting collections one at a time, in any   *)
(* order, walking down from the root and adding the nodes that are missing *)
(* (the way the library does it), always gives the hierarchy of the names  *)
(* inserted so far.  The complete libraries are printed and built by the   *)
(* real code.                                                              *)
(***************************************************************************)
EXTENDS Hierarchy
CONSTANTS Names, Size
VARIABLES done, nodes   \* names in order of insertion; path -> [colls, kids]
vars == <<done, nodes>>
Empty == [colls |-> {}, kids |-> {}]
Init == done = <<>> /\ nodes = ("" :> Empty)
RECURSIVE Enter(_, _, _, _)
Enter(ns, at, parts, i) ==
    IF i = Len(parts) THEN [ns EXCEPT ![at].colls = @ \cup {parts[i]}]
    ELSE LET p == Below(at, parts[i])
             ms == [ns EXCEPT ![at].kids = @ \cup {parts[i]}]
         IN Enter(IF p \in DOMAIN ms THEN ms ELSE ms @@ (p :> Empty), p, parts, i + 1)
Insert(n) ==
    /\ n \notin Range(done) /\ Len(done) < Size
    /\ done' = Append(done, n)
    /\ nodes' = Enter(nodes, "", Split(n, "/"), 1)
Next == \E n \in Names : Insert(n)
Spec == Init /\ [][Next]_vars
Agrees ==
    /\ DOMAIN nodes = Nodes(Range(done))
    /\ \A d \in DOMAIN nodes : /\ nodes[d].colls = Listed(Range(done), d)
                               /\ nodes[d].kids = Children(Range(done), d)
Report == Len(done) # Size \/ PrintT(ToJson(done))
=============================================================================
