----------------------------- MODULE SeedTrace ------------------------------
\* hs: histories over one library and one list of templates, run one after
\* the other (some in other processes).  Each operation is of a generator g
\* of its history: [op |-> "new", g, seed (-1: none), linked],
\* [op |-> "call", g, t, n, seeds, out] or anything else, which must not
\* matter.  Prompts with the same cause must be the same, and each must be
\* one the template allows.  total: no template of the line ever fails.
EXTENDS Seeds, Judge
K == DefaultSyntax
RECURSIVE Walk(_, _, _, _, _, _)
\* gens: generator -> source; memo: sequence of [c |-> cause, o |-> prompt]
Walk(e, td, h, i, gens, memo) ==
    IF i > Len(h) THEN [bad |-> "", memo |-> memo]
    ELSE LET o == h[i] IN
    CASE o.op = "new" ->
            LET src == IF o.linked /\ o.seed >= 0 THEN Seeded(o.seed)
                       ELSE << <<"free", Len(memo), i, o.g>> >>
            IN Walk(e, td, h, i + 1, (o.g :> [s |-> src, linked |-> o.linked]) @@ gens, memo)
      [] o.op = "call" ->
            LET t == e.ts[o.t]
                src == gens[o.g].s
                tied == td[o.t]
                x == MkCtx("R", e.lib, K, FALSE)
                causes == [j \in 1..Len(o.out) |-> Cause(src, tied, t, o.n, o.seeds, j)]
                clash == \E j \in 1..Len(o.out) : \E m \in 1..Len(memo) : memo[m].c = causes[j] /\ memo[m].o # o.out[j]
                twice == \E j, k \in 1..Len(o.out) : causes[j] = causes[k] /\ o.out[j] # o.out[k]
            IN IF Refused(o.seeds, o.n)
               THEN IF o.out = <<"!!ValueError">> THEN Walk(e, td, h, i + 1, gens, memo) ELSE [bad |-> "not-refused", memo |-> memo]
               ELSE IF ~e.total /\ Len(o.out) = 1 /\ IsErr(o.out[1])
               THEN Walk(e, td, h, i + 1, [gens EXCEPT ![o.g].s = << <<"failed", Len(memo), i>> >>], memo)
               ELSE IF Len(o.out) # o.n THEN [bad |-> "count", memo |-> memo]
               ELSE IF clash \/ twice THEN [bad |-> "not-reproduced", memo |-> memo]
               ELSE IF ~TooLarge(ParseText(K, t), x, 300) /\ ~\E s \in SampleText(t, x, o.n) : Fits(o.out, s)
               THEN [bad |-> "prompts", memo |-> memo]
               ELSE Walk(e, td, h, i + 1, \* others use the source of an unlinked generator too
                         [gens EXCEPT ![o.g].s = IF gens[o.g].linked THEN After(src, t, o.n, o.seeds)
                                                 ELSE << <<"shared", Len(memo), i>> >>],
                         memo \o [j \in 1..Len(o.out) |-> [c |-> causes[j], o |-> o.out[j]]])
      [] OTHER -> Walk(e, td, h, i + 1, gens, memo)
RECURSIVE All(_, _, _, _)
All(e, td, k, memo) ==
    IF k > Len(e.hs) THEN "ok"
    ELSE LET r == Walk(e, td, e.hs[k], 1, [g \in {} |-> 0], memo)
         IN IF r.bad # "" THEN r.bad ELSE All(e, td, k + 1, r.memo)
\* Unlinked generators do not follow their seed: prompts of a template with
\* astronomically many alternatives differ.
Free(e) ==
    LET outs == Flatten([k \in 1..Len(e.free) |-> e.free[k]])
    IN \A i, j \in 1..Len(outs) : i < j => outs[i] # outs[j]
Verdict(e) == IF ~Free(e) THEN "seed-not-ignored" 
              ELSE LET td == TLCEval([k \in 1..Len(e.ts) |-> TiedIn(K, e.ts[k], e.lib)]) IN All(e, td, 1, <<>>)
Next == Consume(Verdict)
Spec == TraceInit /\ [][Next]_<<l, verdict>>
=============================================================================
