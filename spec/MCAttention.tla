---------------------------- MODULE MCAttention -----------------------------
(***************************************************************************)
(* Every text of at most Depth pieces: its phrases occur in it, emphasis   *)
(* is undone by removing the markup, and the outcome is one Outcome        *)
(* accepts.  The texts are printed and given to the real generator.        *)
(***************************************************************************)
EXTENDS Attention
CONSTANT Depth
Pieces == <<"a", "b", " ", ",", "1", "(", ")", ":", "-">>
VARIABLES s, n
Init == s = "" /\ n = 0
Next == n < Depth /\ \E i \in 1..Len(Pieces) : s' = s \o Pieces[i] /\ n' = n + 1
Spec == Init /\ [][Next]_<<s, n>>
Undone ==
    \A p \in Phrases(s) :
        /\ Find(s, 1, p) > 0 /\ p = Strip(p) /\ p # ""
        /\ \A w \in {"0.5", "0.57"} :
             /\ Replace(Emphasised(s, p, w), "(" \o p \o ":" \o w \o ")", p) = s
             /\ Outcome(s, Emphasised(s, p, w), 900, 500) = "ok"
             /\ Outcome(s, Emphasised(s, p, w), 600, 900) = "emphasis"
             /\ Outcome(s, s, 500, 900) = "not-emphasised"
Untouched == Phrases(s) = {} => Outcome(s, s, 100, 900) = "ok"
Emit == PrintT(ToJson([s |-> s]))
=============================================================================
