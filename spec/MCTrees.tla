------------------------------ MODULE MCTrees -------------------------------
(***************************************************************************)
(* Trees of commands put together by hand, grown from the leaves by at     *)
(* most Depth steps.  Marking the whole tree with the method in force      *)
(* changes nothing; a mark for another method gives what that method       *)
(* gives, except that a combinatorial one changes nothing elsewhere; a     *)
(* separator is the same as literals between the parts; and nesting a      *)
(* sequence in one without separator is the same as writing its parts      *)
(* there (for methods in which all parts advance together).  The trees are *)
(* printed and built from the real commands.                               *)
(***************************************************************************)
EXTENDS Trees, IOUtils
CONSTANTS Depth
K == DefaultSyntax
It(s) == [s |-> s, w |-> 1000]
Lib == << [n |-> "w", items |-> <<It("m"), It("n")>>] >>
Ctx(m) == Bind(MkCtx(m, Lib, K, FALSE), "v", Lit("V"))
Var(a, b, m) == Variant(<<Opt(1000, Lit(a)), Opt(1000, Lit(b))>>, 1, 1, ",", m)
Leaves == {Lit("a"), Var("b", "c", ""), Var("d", "e", "R"), Var("f", "g", "Y"), Wildcard(Lit("w"), "", <<>>),
           Wildcard(Lit("w"), "Y", <<>>), GetC("v", NoneC), GetC("u", Var("h", "i", ""))}
Few == {Lit("x"), Var("y", "z", ""), Var("p", "q", "Y")}
S(xs, sep, m) == [t |-> "seq", xs |-> xs, sep |-> sep, m |-> m]
Marked(c, m) == IF c.t \in {"get", "set"} THEN c ELSE ("m" :> m) @@ c
Marks == {"", "R", "Y", "C"}
Grown(c) ==
    {S(xs, sep, m) : xs \in {<<c, l>> : l \in Few} \cup {<<l, c>> : l \in Few} \cup {<<c, c>>, <<c>>}, sep \in {"", " + "}, m \in Marks}
    \cup {[t |-> "var", opts |-> <<Opt(1000, c), Opt(1000, l)>>, lo |-> b[1], hi |-> b[2], sep |-> "&", m |-> m]
          : l \in Few, b \in {<<1, 1>>, <<2, 1>>}, m \in Marks}
    \cup {[t |-> "wrap", w |-> w, i |-> c, m |-> m] : w \in {Lit("("), Lit("<...>"), Var("1...", "2...", "")}, m \in Marks}
    \cup {[t |-> "wrap", w |-> c, i |-> Lit("k"), m |-> m] : m \in {"", "Y"}}
    \cup {S(<<[t |-> "set", n |-> "v", v |-> c, imm |-> i, ow |-> o], GetC("v", NoneC), l>>, "", "") : i \in BOOLEAN, o \in BOOLEAN, l \in Few}
VARIABLES c, d
Init == c \in Leaves /\ d = 0
Next == d < Depth /\ d' = d + 1 /\ c' \in Grown(c)
Spec == Init /\ [][Next]_<<c, d>>

N == 12
Is(clause, b) == b \/ Assert(FALSE, <<clause, c>>)
Between(xs, sep) == Flatten([i \in 1..Len(xs) |-> IF i = 1 THEN <<xs[i]>> ELSE <<Lit(sep), xs[i]>>])
Same(a, b) == a = b \/ Undecided(a) \/ Undecided(b)
Coherent ==
    LET e == TLCEval(Norm(c))
        In == [m \in {"R", "Y", "C"} |-> TLCEval(Sample(e, Ctx(m), N))]
        own == Mark(e)
    IN
    /\ Is("mark", \A m \in {"R", "Y", "C"} : own = "" => Same(In[m], Sample(Marked(e, m), Ctx(m), N)))
    /\ Is("mark", own \in {"R", "Y"} => Same(In["C"], In[own]) /\ Same(In["R"], In[own]) /\ Same(In["Y"], In[own]))
    /\ Is("mark", own = "C" => \A m \in {"R", "Y"} : Same(In[m], Sample(Marked(e, ""), Ctx(m), N)))
    /\ Is("separator", e.t = "seq" /\ SepOf(e) # "" =>
            \A m \in {"R", "Y", "C"} : Same(In[m], Sample([e EXCEPT !.xs = Between(e.xs, e.sep), !.sep = ""], Ctx(m), N)))
    /\ Is("nesting", e.t = "seq" /\ own = "" =>
            \A m \in {"R", "Y", "C"} : Same(In[m], Sample(S(<<e>>, "", ""), Ctx(m), N)))
Emit == PrintT(ToJson([c |-> c]))
=============================================================================
