------------------------------- MODULE Render -------------------------------
(***************************************************************************)
(* Writing an abstract syntax tree as a template, and the order in which   *)
(* its text occurs.  Parsing what was written gives the tree back.         *)
(***************************************************************************)
EXTENDS Grammar

Digit(n) == SubSeq("0123456789", n + 1, n + 1)
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN Digit(n) ELSE Dec(n \div 10) \o Digit(n % 10)
WeightText(x) ==
    LET w == IF x < 0 THEN 0 - x ELSE x IN
    (IF x < 0 THEN "-" ELSE "") \o Dec(w \div 1000) \o "." \o Digit((w \div 100) % 10) \o Digit((w \div 10) % 10) \o Digit(w % 10)
SymbolOf == [m \in {"", "R", "C", "Y"} |-> CASE m = "" -> "" [] m = "R" -> "~" [] m = "C" -> "!" [] m = "Y" -> "@"]

RECURSIVE Render(_, _), Cat(_, _, _), OptTexts(_, _, _), VarTexts(_, _, _)
Cat(K, xs, i) == IF i > Len(xs) THEN "" ELSE Render(K, xs[i]) \o Cat(K, xs, i + 1)
OptTexts(K, os, i) ==
    WeightText(os[i].w) \o "::" \o Render(K, os[i].v) \o (IF i = Len(os) THEN "" ELSE "|" \o OptTexts(K, os, i + 1))
VarTexts(K, vs, i) ==
    vs[i].n \o "=" \o Render(K, vs[i].v) \o (IF i = Len(vs) THEN "" ELSE "," \o VarTexts(K, vs, i + 1))
Render(K, c) ==
    CASE c.t = "lit" -> c.s
      [] c.t = "seq" -> Cat(K, c.xs, 1)
      [] c.t = "var" -> K.vs \o SymbolOf[c.m] \o Dec(c.lo) \o "-" \o Dec(c.hi) \o "$$" \o c.sep \o "$$" \o OptTexts(K, c.opts, 1) \o K.ve
      [] c.t = "wc" -> K.ww \o SymbolOf[c.m] \o Render(K, c.path)
                       \o (IF c.vars = <<>> THEN "" ELSE "(" \o VarTexts(K, c.vars, 1) \o ")") \o K.ww
      [] c.t = "get" -> K.as \o c.n \o (IF c.d.t = "none" THEN "" ELSE ":" \o Render(K, c.d)) \o K.ae
      [] c.t = "set" -> K.as \o c.n \o (IF c.ow THEN "=" ELSE "?=") \o (IF c.imm THEN "!" ELSE "") \o Render(K, c.v) \o K.ae
      [] c.t = "wrap" -> K.ps \o Render(K, c.w) \o "$$" \o Render(K, c.i) \o K.pe

\* The letters of a tree, in order: text, names and separators.
LettersOf(s) == LET RECURSIVE F(_)
                    F(i) == IF i > Len(s) THEN "" ELSE (IF At(s, i) \in Alpha THEN At(s, i) ELSE "") \o F(i + 1)
                IN F(1)
RECURSIVE Letters(_)
Letters(c) ==
    CASE c.t = "lit" -> LettersOf(c.s)
      [] c.t = "seq" -> Concat([i \in 1..Len(c.xs) |-> Letters(c.xs[i])])
      [] c.t = "var" -> LettersOf(c.sep) \o Concat([i \in 1..Len(c.opts) |-> Letters(c.opts[i].v)])
      [] c.t = "wc" -> Letters(c.path) \o Concat([i \in 1..Len(c.vars) |-> LettersOf(c.vars[i].n) \o Letters(c.vars[i].v)])
      [] c.t = "get" -> LettersOf(c.n) \o Letters(c.d)
      [] c.t = "set" -> LettersOf(c.n) \o Letters(c.v)
      [] c.t = "wrap" -> Letters(c.w) \o Letters(c.i)
      [] OTHER -> ""

\* A tree up to grouping: sequences flattened, neighbouring text joined.
RECURSIVE Norm(_), Parts(_, _)
Parts(xs, i) ==
    IF i > Len(xs) THEN <<>>
    ELSE LET x == Norm(xs[i]) IN (IF x.t = "seq" THEN x.xs ELSE <<x>>) \o Parts(xs, i + 1)
RECURSIVE JoinText(_, _)
JoinText(xs, acc) ==
    IF xs = <<>> THEN acc
    ELSE IF acc # <<>> /\ acc[Len(acc)].t = "lit" /\ Head(xs).t = "lit"
         THEN JoinText(Tail(xs), SubSeq(acc, 1, Len(acc) - 1) \o <<Lit(acc[Len(acc)].s \o Head(xs).s)>>)
         ELSE JoinText(Tail(xs), Append(acc, Head(xs)))
Norm(c) ==
    CASE c.t = "seq" -> LET p == JoinText(Parts(c.xs, 1), <<>>)
                            q == SelectSeq(p, LAMBDA x : x # Lit(""))
                        IN IF Len(q) = 1 THEN q[1] ELSE [c EXCEPT !.xs = q]
      [] c.t = "lit" -> IF c.s = "" THEN SeqC(<<>>) ELSE c
      [] c.t = "var" -> [c EXCEPT !.opts = [i \in 1..Len(c.opts) |-> [c.opts[i] EXCEPT !.v = Norm(@)]]]
      [] c.t = "wc" -> [c EXCEPT !.path = Norm(@), !.vars = [i \in 1..Len(c.vars) |-> [c.vars[i] EXCEPT !.v = Norm(@)]]]
      [] c.t = "get" -> [c EXCEPT !.d = Norm(@)]
      [] c.t = "set" -> [c EXCEPT !.v = Norm(@)]
      [] c.t = "wrap" -> [c EXCEPT !.w = Norm(@), !.i = Norm(@)]
      [] OTHER -> c
=============================================================================
