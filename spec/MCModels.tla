------------------------------ MODULE MCModels ------------------------------
(***************************************************************************)
(* Every history of at most Depth operations on Slots generators and Names *)
(* models.  The histories are printed and replayed on the real generator.  *)
(***************************************************************************)
EXTENDS Models
CONSTANTS Slots, Names, Depth
VARIABLES st, hist, own
vars == <<st, hist, own>>
Init == st = [gens |-> [s \in 1..Slots |-> ""], loaded |-> ""] /\ hist = <<>> /\ own = [s \in 1..Slots |-> ""]
Ops ==
    {[op |-> "new", slot |-> s, m |-> m, ok |-> b] : s \in 1..Slots, m \in Names, b \in BOOLEAN}
    \cup {[op |-> "set", slot |-> s, m |-> m, ok |-> b] : s \in {s \in 1..Slots : st.gens[s] # ""}, m \in Names, b \in BOOLEAN}
Next ==
    /\ Len(hist) < Depth
    /\ \E op \in Ops :
         /\ op.ok \/ Loads(st, op)            \* ok says nothing when nothing is loaded
         /\ st' = After(st, op)
         /\ hist' = Append(hist, op)
         /\ own' = IF Fails(st, op) THEN own ELSE [own EXCEPT ![op.slot] = op.m]
Spec == Init /\ [][Next]_vars
Own == st.gens = own                      \* each uses the last model it got itself
Retried == (hist # <<>> /\ st.loaded = "") => \A m \in Names : Loads(st, [op |-> "new", slot |-> 1, m |-> m, ok |-> TRUE])
Shared == \A s \in 1..Slots : Seen(st, [op |-> "use", slot |-> s]).res = own[s]
Emit == PrintT(ToJson(hist))
=============================================================================
