------------------------------- MODULE Seeds --------------------------------
(***************************************************************************)
(* Which prompts of random generators must be equal.  Every prompt has a   *)
(* cause: what its generator's source of randomness was seeded with and    *)
(* what it was used for since.  Prompts with the same cause are the same.  *)
(*                                                                         *)
(* A source is a sequence: how it started, then every use.                 *)
(***************************************************************************)
EXTENDS Semantics

\* Parts that are decided once per call or advance from prompt to prompt
\* tie a prompt to the ones before it.
RECURSIVE Tied(_)
Tied(c) ==
    CASE c.t = "seq" -> \E i \in 1..Len(c.xs) : Tied(c.xs[i])
      [] c.t = "var" -> c.m = "Y" \/ \E i \in 1..Len(c.opts) : Tied(c.opts[i].v)
      [] c.t = "wc" -> c.m = "Y" \/ c.path.t # "lit" \/ \E i \in 1..Len(c.vars) : Tied(c.vars[i].v)
      [] c.t = "get" -> Tied(c.d)
      [] c.t = "set" -> c.imm \/ Tied(c.v)
      [] c.t = "wrap" -> Tied(c.w) \/ Tied(c.i)
      [] OTHER -> FALSE
TiedIn(K, t, lib) ==
    \/ Tied(ParseText(K, t))
    \/ \E i \in 1..Len(lib) : \E j \in 1..Len(lib[i].items) : Tied(ParseText(K, lib[i].items[j].s))

Seeded(k) == << <<"seed", k>> >>
\* The seeds of a call for n prompts: one stands for all; <<>>: none given.
Expand(seeds, n) == IF Len(seeds) = 1 THEN [i \in 1..n |-> seeds[1]] ELSE seeds
Refused(seeds, n) == seeds # <<>> /\ Len(Expand(seeds, n)) # n

\* The cause of the i-th prompt of a call, given its source.
Cause(src, tied, t, n, seeds, i) ==
    IF seeds = <<>> THEN <<"call", src, t, n, i>>
    ELSE IF tied THEN <<"seeds", t, SubSeq(Expand(seeds, n), 1, i)>>
    ELSE <<"seeds", t, <<Expand(seeds, n)[i]>> >>
After(src, t, n, seeds) ==
    IF seeds = <<>> THEN Append(src, <<t, n>>)
    ELSE IF n = 0 THEN src
    ELSE << <<"seeds", Expand(seeds, n)>>, <<t, n>> >>
=============================================================================
