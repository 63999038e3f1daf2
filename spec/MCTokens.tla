------------------------------ MODULE MCTokens ------------------------------
(***************************************************************************)
(* Every string of at most Depth tokens of a family, in a frame: what the   *)
(* grammar makes of it must be well-formed, keep its text in order, and    *)
(* survive being written out and read again.  The strings are printed and  *)
(* parsed by the real parser.                                              *)
(***************************************************************************)
EXTENDS Render
CONSTANT Depth
K == DefaultSyntax
\* Families of tokens, and the frames their strings are put in.
Families == <<
    [t |-> <<"{", "}", "|", "2", "-", "$$", "a", " ", "::", ".5">>,
     f |-> << <<"", "">>, <<"{", "}">>, <<"{2$$", "|b}">>, <<"x{a|", "}">>, <<"{1-", "$$a|b}">> >>],
    [t |-> <<"{", "}", "|", "a", "__", "b/c", "~", "$$", "1", "#x\n">>,
     f |-> << <<"", "">>, <<"{a|", "}">>, <<"__", "__">>, <<"{{", "}|c}">>, <<"{2$$ ", "$$a|b}">> >>],
    [t |-> <<"${", "}", "v", "=", "?", "!", ":", "a", "{", "|">>,
     f |-> << <<"", "">>, <<"${v", "}">>, <<"${v=", "}b">>, <<"${v:", "}">>, <<"{${", "}|b}">> >>],
    [t |-> <<"__", "(", ")", "v=", "a", ",", "@", "${v", "}", " ">>,
     f |-> << <<"", "">>, <<"__", "__">>, <<"__b(", ")__">>, <<"__b", "(v=1)__">>, <<"{2$$__", "__}">> >>],
    [t |-> <<"%{", "}", "$$", "a", "...", "{", "|", "__", "${v:", " ">>,
     f |-> << <<"", "">>, <<"%{", "}">>, <<"%{a", "$$b}">>, <<"%{a$$", "}">>, <<"{a|%{", "$$c}}">> >>],
    [t |-> <<"$", "%", "_", "#", "/", "*", "\n", "{", "}", "a">>,
     f |-> << <<"", "">>, <<"{a", "}">>, <<"b", "c">>, <<"__", "__">>, <<"${v=", "}">> >>] >>
VARIABLES fam, fr, body, n
vars == <<fam, fr, body, n>>
Init == fam \in 1..Len(Families) /\ fr \in 1..Len(Families[fam].f) /\ body = "" /\ n = 0
Next == /\ n < Depth
        /\ \E i \in 1..Len(Families[fam].t) : body' = body \o Families[fam].t[i]
        /\ n' = n + 1
        /\ UNCHANGED <<fam, fr>>
Spec == Init /\ [][Next]_vars
s == Families[fam].f[fr][1] \o body \o Families[fam].f[fr][2]

Tree == ParseText(K, s)
RECURSIVE WellFormed(_)
WellFormed(c) ==
    CASE c.t = "lit" -> c.s # ""
      [] c.t = "seq" -> Len(c.xs) # 1 /\ \A i \in 1..Len(c.xs) : WellFormed(c.xs[i])
      [] c.t = "var" -> /\ c.lo <= c.hi /\ c.lo >= 0 /\ c.opts # <<>> /\ c.sep # ""
                        /\ \A i \in 1..Len(c.opts) : WellFormed(c.opts[i].v)
      [] c.t = "wc" -> WellFormed(c.path) /\ \A i \in 1..Len(c.vars) : WellFormed(c.vars[i].v)
      [] c.t = "get" -> c.n # "" /\ (c.d.t = "none" \/ WellFormed(c.d))
      [] c.t = "set" -> c.n # "" /\ WellFormed(c.v)
      [] c.t = "wrap" -> WellFormed(c.w) /\ WellFormed(c.i)
      [] OTHER -> FALSE
Accepted == Tree.t # "bad"
Formed == Accepted => WellFormed(Tree)
RECURSIVE Uncomment(_, _)
Uncomment(t, i) ==
    IF i > Len(t) THEN ""
    ELSE IF At(t, i) = "#" THEN Uncomment(t, EOL(t, i))
    ELSE At(t, i) \o Uncomment(t, i + 1)
\* A bare ${name} in a wildcard's name stands for its own name by default.
NoSlashComments == Find(s, 1, "//") = 0 /\ Find(s, 1, "/*") = 0
RECURSIVE PathGets(_)
PathGets(c) ==
    CASE c.t = "seq" -> \E i \in 1..Len(c.xs) : PathGets(c.xs[i])
      [] c.t = "var" -> \E i \in 1..Len(c.opts) : PathGets(c.opts[i].v)
      [] c.t = "wc" -> c.path.t # "lit" \/ \E i \in 1..Len(c.vars) : PathGets(c.vars[i].v)
      [] c.t = "get" -> PathGets(c.d)
      [] c.t = "set" -> PathGets(c.v)
      [] c.t = "wrap" -> PathGets(c.w) \/ PathGets(c.i)
      [] OTHER -> FALSE
\* A parameter given twice keeps its last value.
GivenTwice == Find(s, 1, "(") # 0 /\ Find(s, 1, ",") # 0
TextKept == Accepted /\ NoSlashComments /\ ~PathGets(Tree) /\ ~GivenTwice => Letters(Tree) = LettersOf(Uncomment(s, 1))
PlainText == (\A c \in {"{", "}", "$", "%", "#", "|"} : Find(s, 1, c) = 0) /\ Find(s, 1, "__") = 0 /\ NoSlashComments
             => Tree = (IF s = "" THEN SeqC(<<>>) ELSE Lit(s))
RoundTrip == Accepted /\ NoSlashComments /\ ~PathGets(Tree) => Norm(ParseText(K, Render(K, Tree))) = Norm(Tree)
Emit == PrintT(ToJson([s |-> s]))
=============================================================================
