------------------------------- MODULE Jinja --------------------------------
(***************************************************************************)
(* Jinja templates over the library's helpers: their concrete syntax, what *)
(* one render can do (the text it gives and the prompt blocks it executes, *)
(* in order), and which lists of prompts a call may return.                *)
(*                                                                         *)
(* Nodes: [t |-> "txt", s], [t |-> "var", n], [t |-> "tup", n, sep],       *)
(* [t |-> "choice", xs], [t |-> "wchoice", xs of [s, w]],                  *)
(* [t |-> "sample", s], [t |-> "rint", lo, hi], [t |-> "join", e, sep],    *)
(* [t |-> "prompt", body], [t |-> "for", n, e, body],                      *)
(* [t |-> "if", c, a, b], [t |-> "set", n, xs].                            *)
(* List expressions e: [k |-> "lit", xs], [k |-> "wild", s],               *)
(* [k |-> "comb", s], [k |-> "perm", xs, lo, hi].                          *)
(* Conditions c: [k |-> "eq", n, s], [k |-> "has", n], [k |-> "coin"].     *)
(***************************************************************************)
EXTENDS Semantics

Quoted(s) == "\"" \o s \o "\""
QuotedAll(xs) == Join([i \in 1..Len(xs) |-> Quoted(xs[i])], ", ")
ShowList(e) ==
    CASE e.k = "lit" -> "[" \o QuotedAll(e.xs) \o "]"
      [] e.k = "wild" -> "wildcard(" \o Quoted(e.s) \o ")"
      [] e.k = "comb" -> "all_combinations(" \o Quoted(e.s) \o ")"
      [] e.k = "perm" -> "permutations([" \o QuotedAll(e.xs) \o "], " \o ToString(e.lo) \o
                         (IF e.hi < 0 THEN "" ELSE ", " \o ToString(e.hi)) \o ")"
ShowCond(c) ==
    CASE c.k = "eq" -> c.n \o " == " \o Quoted(c.s)
      [] c.k = "has" -> c.n
      [] c.k = "coin" -> "choice(true, false)"
RECURSIVE Show(_)
RECURSIVE ShowAll(_)
ShowAll(ns) == IF ns = <<>> THEN "" ELSE Show(Head(ns)) \o ShowAll(Tail(ns))
Show(n) ==
    CASE n.t = "txt" -> n.s
      [] n.t = "var" -> "{{ " \o n.n \o " }}"
      [] n.t = "tup" -> "{{ " \o n.n \o "|join(" \o Quoted(n.sep) \o ") }}"
      [] n.t = "choice" -> "{{ choice(" \o QuotedAll(n.xs) \o ") }}"
      [] n.t = "wchoice" -> "{{ weighted_choice(" \o
             Join([i \in 1..Len(n.xs) |-> "(" \o Quoted(n.xs[i].s) \o ", " \o ToString(n.xs[i].w) \o ")"], ", ") \o ") }}"
      [] n.t = "sample" -> "{{ random_sample(" \o Quoted(n.s) \o ") }}"
      [] n.t = "rint" -> "{{ randint(" \o ToString(n.lo) \o ", " \o ToString(n.hi) \o ") }}"
      [] n.t = "join" -> "{{ " \o ShowList(n.e) \o "|join(" \o Quoted(n.sep) \o ") }}"
      [] n.t = "prompt" -> "{% prompt %}" \o ShowAll(n.body) \o "{% endprompt %}"
      [] n.t = "for" -> "{% for " \o n.n \o " in " \o ShowList(n.e) \o " %}" \o ShowAll(n.body) \o "{% endfor %}"
      [] n.t = "if" -> "{% if " \o ShowCond(n.c) \o " %}" \o ShowAll(n.a) \o
                       (IF n.b = <<>> THEN "" ELSE "{% else %}" \o ShowAll(n.b)) \o "{% endif %}"
      [] n.t = "set" -> "{% set " \o n.n \o " = choice(" \o QuotedAll(n.xs) \o ") %}"

-----------------------------------------------------------------------------
\* The list an expression denotes; x: a sampling context of the library.
Limit1000 == 1000
InMode(x, m) == [x EXCEPT !.m = m]
Rows(ss) == LET s == CHOOSE s \in ss : TRUE IN [i \in 1..Len(s) |-> CHOOSE o \in s[i] : TRUE]
Sure(ss) == Cardinality(ss) = 1 /\ ~Undecided(ss) /\ \A s \in ss : \A i \in 1..Len(s) : Cardinality(s[i]) = 1 /\ \A o \in s[i] : ~IsErr(o)
Expansion(txt, x) == SampleText(txt, InMode(x, "C"), Limit1000)
RECURSIVE Selected(_, _, _)
Selected(xs, lo, hi) == \* every ordered selection, by size
    IF lo > hi THEN <<>>
    ELSE LET ps == Perms([i \in 1..Len(xs) |-> i], lo, 100000)
         IN [j \in 1..Len(ps) |-> [i \in 1..Len(ps[j]) |-> xs[ps[j][i]]]] \o Selected(xs, lo + 1, hi)
ListOf(e, x) ==
    CASE e.k = "lit" -> e.xs
      [] e.k = "wild" -> Rows(Expansion(x.ww \o e.s \o x.ww, x))
      [] e.k = "comb" -> Rows(Expansion(e.s, x))
      [] e.k = "perm" -> Selected(e.xs, e.lo, IF e.hi < 0 THEN e.lo ELSE e.hi)
RECURSIVE Clear(_, _)   \* everything in it is decided by the specification
Clear(ns, x) ==
    LET ok(e) == CASE e.k = "wild" -> Sure(Expansion(x.ww \o e.s \o x.ww, x))
                   [] e.k = "comb" -> Sure(Expansion(e.s, x))
                   [] OTHER -> TRUE
    IN \A i \in 1..Len(ns) : LET n == ns[i] IN
         CASE n.t = "sample" -> LET c == ParseText(x.K, n.s) IN ~TooLarge(c, InMode(x, "R"), 40) /\ ~Undecided(Sample(c, InMode(x, "R"), 1))
                                                     /\ \A o \in FirstSample(c, InMode(x, "R")) : ~IsErr(o)
           [] n.t = "join" -> ok(n.e)
           [] n.t = "prompt" -> Clear(n.body, x)
           [] n.t = "for" -> ok(n.e) /\ Clear(n.body, x)
           [] n.t = "if" -> Clear(n.a, x) /\ Clear(n.b, x)
           [] OTHER -> TRUE

\* What executing nodes can do: text, blocks, variables afterwards.
Val(env, n) == IF n \in DOMAIN env THEN env[n] ELSE ""
RECURSIVE Exec(_, _, _, _)
RECURSIVE Node(_, _, _)
RECURSIVE Loop(_, _, _, _, _)
Exec(ns, i, env, x) ==
    IF i > Len(ns) THEN {[t |-> "", b |-> <<>>, v |-> env]}
    ELSE UNION {{[t |-> o.t \o r.t, b |-> o.b \o r.b, v |-> r.v] : r \in Exec(ns, i + 1, o.v, x)} : o \in Node(ns[i], env, x)}
Loop(n, list, i, env, x) ==
    IF i > Len(list) THEN {[t |-> "", b |-> <<>>]}
    ELSE UNION {{[t |-> o.t \o r.t, b |-> o.b \o r.b] : r \in Loop(n, list, i + 1, env, x)} :
                o \in Exec(n.body, 1, (n.n :> list[i]) @@ env, x)}
Holds(c, env) ==
    CASE c.k = "eq" -> {Val(env, c.n) = c.s}
      [] c.k = "has" -> {Val(env, c.n) # ""}
      [] c.k = "coin" -> BOOLEAN
Node(n, env, x) ==
    LET Says(s) == [t |-> s, b |-> <<>>, v |-> env] IN
    CASE n.t = "txt" -> {Says(n.s)}
      [] n.t = "var" -> {Says(Val(env, n.n))}
      [] n.t = "tup" -> {Says(Join(env[n.n], n.sep))}
      [] n.t = "choice" -> {Says(s) : s \in Range(n.xs)}
      [] n.t = "wchoice" -> {Says(y.s) : y \in {z \in Range(n.xs) : z.w > 0}}
      [] n.t = "sample" -> {Says(s) : s \in FirstSample(ParseText(x.K, n.s), InMode(x, "R"))}
      [] n.t = "rint" -> {Says(ToString(k)) : k \in n.lo..n.hi}
      [] n.t = "join" -> {Says(Join(ListOf(n.e, x), n.sep))}
      [] n.t = "prompt" -> {[t |-> o.t, b |-> Append(o.b, o.t), v |-> env] : o \in Exec(n.body, 1, env, x)}
      [] n.t = "for" -> {[t |-> o.t, b |-> o.b, v |-> env] : o \in Loop(n, TLCEval(ListOf(n.e, x)), 1, env, x)}
      [] n.t = "if" -> UNION {Exec(IF h THEN n.a ELSE n.b, 1, env, x) : h \in Holds(n.c, env)}
      [] n.t = "set" -> {[Says("") EXCEPT !.v = (n.n :> s) @@ env] : s \in Range(n.xs)}
\* One render: [t, b].
Renders(ns, env, x) ==
    LET f(s) == IF x.ws THEN Squash(s) ELSE s
    IN {[t |-> f(o.t), b |-> [i \in 1..Len(o.b) |-> f(o.b[i])]] : o \in Exec(ns, 1, env, x)}

-----------------------------------------------------------------------------
\* The lists of prompts a call for n may return.
Agree(a, b) == \A i \in 1..Min2(Len(a), Len(b)) : a[i] = b[i]
RECURSIVE Split2(_, _, _, _)
\* obs is what n more renders did; part: it may be cut short
Split2(R, obs, n, part) ==
    IF n = 0 THEN obs = <<>>
    ELSE \/ part /\ obs = <<>>
         \/ \E b \in {o.b : o \in R} :
              /\ Agree(b, obs)
              /\ (part \/ Len(b) <= Len(obs))
              /\ Split2(R, SubSeq(obs, Len(b) + 1, Len(obs)), n - 1, part)
Allowed(R, obs, n, limit) ==
    LET quiet == {o.t : o \in {r \in R : r.b = <<>>}} IN
    IF n = 0 THEN obs = <<>>
    ELSE \* no block was executed: a prompt per render
         \/ Len(obs) = n /\ \A i \in 1..n : obs[i] \in quiet
         \/ /\ obs # <<>>
            /\ limit => Len(obs) <= n
            /\ IF limit /\ Len(obs) = n THEN Split2(R, obs, n, TRUE) ELSE Split2(R, obs, n, FALSE)
=============================================================================
