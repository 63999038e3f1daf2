------------------------------- MODULE MCTidy -------------------------------
(***************************************************************************)
(* Every continuation of at most Depth pieces: tidying keeps its words in  *)
(* order, leaves no braces, keeps the original in front, and is the same   *)
(* whatever the original.  The texts are printed.                          *)
(***************************************************************************)
EXTENDS Magic
CONSTANT Depth
Pieces == <<"a", "B", " ", ",", "-", "!", "(", "}", "_", "1", "cat">>
VARIABLES s, n
Init == s = "" /\ n = 0
Next == n < Depth /\ \E i \in 1..Len(Pieces) : s' = s \o Pieces[i] /\ n' = n + 1
Spec == Init /\ [][Next]_<<s, n>>
RECURSIVE Letters(_, _)
Letters(x, i) == IF i > Len(x) THEN "" ELSE (IF At(x, i) \in Alpha THEN At(x, i) ELSE "") \o Letters(x, i + 1)
Kept ==
    LET t == Tidy(s) IN
    /\ Letters(t, 1) = Letters(s, 1)
    /\ Find(t, 1, "{") = 0 /\ Find(t, 1, "}") = 0
    /\ Strip(t) = t
    /\ (Letters(s, 1) = "" /\ Find(s, 1, "1") = 0 /\ Find(s, 1, "_") = 0) => t = ""
Original ==
    /\ \A o \in {"x", "{x!", "x, , y - z", ""} : StartsWith(CleanUp(o, o \o s), o) /\ CleanUp(o, o \o s) = o \o " " \o Tidy(s)
    /\ CleanUp("zz", s) = Tidy(s)
Emit == PrintT(ToJson([s |-> s]))
=============================================================================
