------------------------------ MODULE MCJinja -------------------------------
(***************************************************************************)
(* The generator's algorithm: render n times, every executed block adding  *)
(* its text to a list that belongs to the call; the list replaces the      *)
(* renders' texts if it is not empty; then the limit cuts.  Whatever the   *)
(* small template and the outcomes of its choices, the result is one       *)
(* Jinja.tla allows.  Templates and settings are printed and run by the    *)
(* real generator, one after the other on the same generator objects.      *)
(***************************************************************************)
EXTENDS Jinja
CONSTANTS MaxN, Pairs
K == DefaultSyntax
I(s) == [s |-> s, w |-> 1000]
Lib == << [n |-> "c", items |-> <<I("p"), I("{q|r} ")>>] >>
X == MkCtx("C", Lib, K, FALSE)
Env == [w |-> "W", e |-> ""]
T(s) == [t |-> "txt", s |-> s]
Leaves == { T("x "), [t |-> "var", n |-> "w"], [t |-> "var", n |-> "v"], [t |-> "choice", xs |-> <<"a", "b">>] }
Bodies(S) == {<<>>} \cup {<<a>> : a \in S}
Wrapped(S) ==
    {[t |-> "prompt", body |-> b] : b \in Bodies(S)}
    \cup {[t |-> "for", n |-> "v", e |-> [k |-> "wild", s |-> "c"], body |-> b] : b \in Bodies(S)}
    \cup {[t |-> "if", c |-> [k |-> "eq", n |-> "v", s |-> "p"], a |-> b, b |-> <<T("no")>>] : b \in Bodies(S)}
    \cup {[t |-> "if", c |-> [k |-> "coin"], a |-> b, b |-> <<>>] : b \in Bodies(S)}
    \cup {[t |-> "for", n |-> "v", e |-> [k |-> "lit", xs |-> <<"1", "p">>], body |-> <<[t |-> "prompt", body |-> b]>>] : b \in Bodies(S)}
Level1 == Wrapped(Leaves)
Level2 == Wrapped(Level1)
Templates == {<<a>> : a \in Leaves \cup Level1 \cup Level2}
             \cup IF Pairs THEN {<<a, b>> : a \in Leaves \cup Level1, b \in Level1} ELSE {<<T("y "), b>> : b \in Level1}
VARIABLES ast, n, limit, done, texts, blocks, out, outs
vars == <<ast, n, limit, done, texts, blocks, out, outs>>
Init ==
    /\ ast \in Templates /\ n \in 0..MaxN /\ limit \in BOOLEAN
    /\ done = 0 /\ texts = <<>> /\ blocks = <<>> /\ out = <<>>
    /\ outs = Renders(ast, Env, X)   \* what a render can do
    /\ n < 2 \/ Cardinality(outs) <= IF n = 2 THEN 16 ELSE 6
Render ==
    /\ done < n
    /\ \E o \in outs : texts' = Append(texts, o.t) /\ blocks' = blocks \o o.b
    /\ done' = done + 1
    /\ UNCHANGED <<ast, n, limit, out, outs>>
Finish ==
    /\ done = n
    /\ LET ps == IF blocks # <<>> THEN blocks ELSE texts IN out' = IF limit THEN Take(ps, n) ELSE ps
    /\ done' = n + 1
    /\ UNCHANGED <<ast, n, limit, texts, blocks, outs>>
Next == Render \/ Finish
Spec == Init /\ [][Next]_vars
Right == done = n + 1 => Allowed(outs, out, n, limit)
Bounded == done = n + 1 /\ limit => Len(out) <= n
Emit == done = 0 => PrintT(ToJson([ast |-> ast, tpl |-> ShowAll(ast), n |-> n, limit |-> limit]))
=============================================================================
