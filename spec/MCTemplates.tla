---------------------------- MODULE MCTemplates -----------------------------
(***************************************************************************)
(* Every template of at most DEPTH pieces of a family over a small library *)
(* (FAMILY and DEPTH come from the environment): the meanings the modes    *)
(* give to it must agree with one another.  The templates are printed and  *)
(* run by the real code in the modes and limits of each check.             *)
(***************************************************************************)
EXTENDS Chance, IOUtils
K == DefaultSyntax
It(s) == [s |-> s, w |-> 1000]
Lib == << [n |-> "w", items |-> <<It("m"), It("n")>>],
          [n |-> "d/u", items |-> <<It("k${v:z}"), It("t")>>],
          [n |-> "d/h", items |-> <<[s |-> "h", w |-> 2000], [s |-> "i", w |-> 1000], [s |-> "{j|o}", w |-> 1000]>>] >>
Pieces == [
    plain  |-> <<"x ", "{a|b}", "{c|d|e}", "__w__", "{f|{g|p}}", "{q|__w__}", "{}", "{r|}">>,
    select |-> <<"{2$$a|b|c}", "{1-2$$ & $$d|e}", "{0-1$$f|g}", "{2$$__w__}", "{3$$p|q}", "{-2$$r|s}", "{2-$$;$$t|u|y}", "x ">>,
    twins  |-> <<"{a|a|b}", "{2$$a|b|a}", "{0-2$$a|a}", "{{a|b}|{b|c}}", "{2$$,$$a|__w__|m}", "{|a|}", "__w__">>,
    marks  |-> <<"{a|b}", "{@c|d|e}", "{~f|g}", "__@w__", "__~w__", "{!h|{@i|j}}", "{@2$$p|q|r}", "{!s|t}">>,
    vars   |-> <<"${v={a|b}}", "${v}", "${v=!{c|d}}", "${v?=e}", "${v:f}", "${u=${v:g}x}", "${u:h}", "__d/u__">>,
    wild   |-> <<"__w__", "__d/u(v=1)__", "__d/*__", "__u__", "${v={d/u|w}}", "__${v:w}__", "__nope__", "{2$$__d/h__}">>,
    wrap   |-> <<"%{p...q$$i}", "%{{a|b}... $$c}", "%{x$${d|e}}", "%{....$$f}", "%{%{g...$$h}...$${j|k}}", "y ", "{l|m...}", "%{$$n}">>,
    weight |-> <<"{2::a|b}", "{0::c|d}", "__d/h__", "{__d/h__}", "{.5::e|1.5::f|g}", "{2$$3::p|q|r}", "x ">>,
    space  |-> <<" a ", "{ b | c }", "# n\n", "  ", "{d # o\n|e}", "\n", "__w__", "${v= f }${v}">> ]
P == Pieces[IOEnv.FAMILY]
Depth == Num(IOEnv.DEPTH)
VARIABLES s, n
Init == s = "" /\ n = 0
Next == n < Depth /\ \E i \in 1..Len(P) : s' = s \o P[i] /\ n' = n + 1
Spec == Init /\ [][Next]_<<s, n>>

Ctx(m) == MkCtx(m, Lib, K, FALSE)
Full == 400
Texts(rows) == UNION {rows[i] : i \in 1..Len(rows)}
AllTexts(ss) == UNION {Texts(q) : q \in ss}
The1(ss) == CHOOSE r \in ss : TRUE
Certain(ss) == Cardinality(ss) = 1 /\ ~Undecided(ss) /\ \A i \in 1..Len(The1(ss)) : Cardinality(The1(ss)[i]) = 1
Unmarked == IOEnv.FAMILY \in {"plain", "select", "vars", "wild", "wrap"}
\* Nothing is decided once for all prompts or weighted.
Once == ~\E m \in {"=!", "d/h", "*", "__${"} : Find(s, 1, m) # 0
RECURSIVE Product(_, _)
Product(xs, i) == IF i > Len(xs) THEN 1 ELSE xs[i] * Product(xs, i + 1)
CountOf(c) == Len(The1(Streams(c, Ctx("C"), Full)))

Is(clause, b) == b \/ Assert(FALSE, <<clause, s>>)
Coherent ==
    LET tree == TLCEval(ParseText(K, s)) IN
    s # "" /\ Size(tree, Ctx("C"), 12) <= 300 =>
    LET c == TLCEval(Sample(tree, Ctx("C"), Full))
        y == TLCEval(Sample(tree, Ctx("Y"), 20))
        r == TLCEval(Sample(tree, Ctx("R"), 1))
        rows == TLCEval(The1(c))
        sure == TLCEval(Certain(c))
        ds == TLCEval(DistOf(s, Ctx("R")))
        tot == SumSeq([i \in 1..Len(ds) |-> ds[i].p], <<0, 1>>)
    IN
    \* A limit cuts the list and changes nothing else.
    /\ Is("prefix", sure => \A k \in {1, 2, 5} : Sample(tree, Ctx("C"), k) = {Take(rows, k)})
    /\ Is("prefix", Certain(y) => \A k \in {1, 2, 5} : Sample(tree, Ctx("Y"), k) = {Take(The1(y), k)})
    \* Random and cyclical prompts are combinatorial ones, and random ones
    \* cover them.
    /\ Is("random", Unmarked /\ Once /\ sure /\ rows # <<>> => Texts(rows) = AllTexts(r))
    /\ Is("cyclical", Unmarked /\ Once /\ sure => \A o \in AllTexts(y) : o = Unclear \/ o \in Texts(rows))
    \* The number of combinations is the product of those of the parts.
    /\ Is("count", IOEnv.FAMILY \in {"plain", "select", "wrap", "twins"} /\ tree.t = "seq" /\ sure =>
           Len(rows) = Product([i \in 1..Len(tree.xs) |-> CountOf(tree.xs[i])], 1))
    \* A selection is never produced twice.
    /\ Is("repeats", IOEnv.FAMILY \in {"select", "twins"} /\ tree.t = "var" /\ sure =>
           \A i, j \in 1..Len(rows) : i < j => rows[i] # rows[j])
    \* Probabilities add up to one, over exactly the possible prompts.
    /\ Is("chances", Unclear \in AllTexts(r) \/ ((tot = Unknown \/ tot = <<1, 1>>) /\ {ds[i].o : i \in 1..Len(ds)} = AllTexts(r)))
    \* Squashing whitespace changes nothing else.
    /\ Is("squash", IOEnv.FAMILY = "space" /\ sure =>
           LET z == The1(Sample(tree, [Ctx("C") EXCEPT !.ws = TRUE], Full)) IN
           /\ Len(z) = Len(rows)
           /\ \A i \in 1..Len(z) : {Squash(o) : o \in rows[i]} = z[i])
    /\ PrintT(ToJson([s |-> s, c |-> IF sure THEN Len(rows) ELSE -1]))
=============================================================================
