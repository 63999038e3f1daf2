------------------------------ MODULE MCSeeds -------------------------------
(***************************************************************************)
(* The design: a linked generator owns a source of numbers, an unlinked    *)
(* one uses a shared source; a call with seeds starts the source anew      *)
(* before every prompt, and nothing is drawn ahead of time.  Sources are   *)
(* modelled as [seed, drawn]; a prompt of a template is the template with  *)
(* the state it was drawn from (and what was decided earlier in its call   *)
(* if the template has such parts).  In every history, prompts with the    *)
(* same cause (Seeds.tla) are the same.  The histories are printed and     *)
(* replayed on the real generators.                                        *)
(***************************************************************************)
EXTENDS Seeds
CONSTANT Depth
\* template 1 is free of parts decided earlier, template 2 is not
Draws == <<2, 3>>
IsTied == <<FALSE, TRUE>>
Calls == { [t |-> 1, n |-> 1, seeds |-> <<>>], [t |-> 2, n |-> 2, seeds |-> <<>>],
           [t |-> 1, n |-> 2, seeds |-> <<5, 7>>], [t |-> 2, n |-> 2, seeds |-> <<5, 7>>], [t |-> 1, n |-> 2, seeds |-> <<7>>],
           [t |-> 1, n |-> 3, seeds |-> <<5, 7>>] }
VARIABLES own, shared, src, memo, h, fresh
vars == <<own, shared, src, memo, h, fresh>>
\* Generator 1 is linked with seed 3, generator 2 unlinked with the same seed.
Init == /\ own = [seed |-> <<"s", 3>>, drawn |-> 0] /\ shared = [seed |-> <<"os", 0>>, drawn |-> 0]
        /\ src = <<Seeded(3), << <<"free", 0>> >> >>
        /\ memo = {} /\ h = <<>> /\ fresh = 1
\* States and prompts of a call, from source r.
RECURSIVE Steps(_, _, _, _, _, _)
Steps(r, c, seeds, i, first, acc) ==
    IF i > c.n THEN [r |-> r, out |-> acc]
    ELSE LET r0 == IF seeds = <<>> THEN r ELSE [seed |-> <<"s", Expand(seeds, c.n)[i]>>, drawn |-> 0]
             r1 == [r0 EXCEPT !.drawn = @ + Draws[c.t]]
             f == IF IsTied[c.t] THEN Append(first, r0) ELSE <<>>
         IN Steps(r1, c, seeds, i + 1, f, Append(acc, <<c.t, r0, f>>))
Call(g, c) ==
    IF Refused(c.seeds, c.n) THEN UNCHANGED <<own, shared, src, memo, fresh>>
    ELSE LET r == IF g = 1 THEN own ELSE shared
             s == Steps(r, c, c.seeds, 1, <<>>, <<>>)
             new == {<<Cause(src[g], IsTied[c.t], c.t, c.n, c.seeds, i), s.out[i]>> : i \in 1..c.n}
         IN /\ memo' = memo \cup new
            /\ src' = [src EXCEPT ![g] = IF g = 1 THEN After(src[g], c.t, c.n, c.seeds)
                                         ELSE << <<"free", fresh>> >>]
            /\ fresh' = fresh + 1
            /\ IF g = 1 THEN own' = s.r /\ UNCHANGED shared ELSE shared' = s.r /\ UNCHANGED own
Other == \* someone else draws from the shared source, or seeds it
    /\ shared' = [seed |-> <<"s", 9>>, drawn |-> 0]
    /\ src' = [src EXCEPT ![2] = << <<"free", fresh>> >>]
    /\ fresh' = fresh + 1
    /\ UNCHANGED <<own, memo>>
Next ==
    /\ Len(h) < Depth
    /\ \/ \E g \in 1..2, c \in Calls : Call(g, c) /\ h' = Append(h, [op |-> "call", g |-> g, t |-> c.t, n |-> c.n, seeds |-> c.seeds])
       \/ Other /\ h' = Append(h, [op |-> "other"])
Spec == Init /\ [][Next]_vars
Reproducible == \A a, b \in memo : a[1] = b[1] => a[2] = b[2]
Emit == Len(h) = Depth => PrintT(ToJson(h))
=============================================================================
