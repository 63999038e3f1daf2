------------------------------ MODULE Grammar -------------------------------
(***************************************************************************)
(* The template language: abstract syntax, and the (PEG) grammar that maps *)
(* a template string to its unique abstract syntax tree or rejects it.     *)
(*                                                                         *)
(* K is a syntax configuration: [vs, ve, ww, as, ae, ps, pe] = variant     *)
(* start/end, wildcard wrap, variable start/end, wrap start/end.           *)
(*                                                                         *)
(* A parsing operator takes (K, s, i) and returns [ok, p, v]: whether it   *)
(* matched, the position after the match and the value.                    *)
(***************************************************************************)
EXTENDS Text

DefaultSyntax == [vs |-> "{", ve |-> "}", ww |-> "__", as |-> "${", ae |-> "}",
                  ps |-> "%{", pe |-> "}"]

(* ------------------------- abstract syntax ----------------------------- *)
Lit(s) == [t |-> "lit", s |-> s]
SeqC(xs) == [t |-> "seq", xs |-> xs]
Opt(w, v) == [w |-> w, v |-> v]                     \* w in thousandths
Variant(opts, lo, hi, sep, m) ==
    [t |-> "var", opts |-> opts, lo |-> Min2(lo, hi), hi |-> Max2(lo, hi), sep |-> sep, m |-> m]
Wildcard(path, m, vars) == [t |-> "wc", path |-> path, m |-> m, vars |-> vars]
NoneC == [t |-> "none"]
GetC(n, d) == [t |-> "get", n |-> n, d |-> d]
SetC(n, v, imm, ow) == [t |-> "set", n |-> n, v |-> v, imm |-> imm, ow |-> ow]
WrapC(w, in) == [t |-> "wrap", w |-> w, i |-> in]
BadC == [t |-> "bad"]

(* ----------------------------- terminals ------------------------------- *)
Fail == [ok |-> FALSE, p |-> 0, v |-> 0]
Ok(p, v) == [ok |-> TRUE, p |-> p, v |-> v]

\* Comments (with any whitespace before them) may precede every terminal.
EOL(s, i) == LET j == Find(s, i, "\n") IN IF j = 0 THEN Len(s) + 1 ELSE j
RECURSIVE SkipC(_, _)
SkipC(s, i) ==
    LET j == SkipSet(s, i, WS) IN
    IF At(s, j) = "#" \/ StartsAt(s, j, "//") THEN SkipC(s, EOL(s, j))
    ELSE IF StartsAt(s, j, "/*")
         THEN LET e == Find(s, j + 2, "*/") IN IF e = 0 THEN i ELSE SkipC(s, e + 2)
         ELSE i

Tok(s, i, tok) == LET j == SkipC(s, i) IN
                  IF StartsAt(s, j, tok) THEN Ok(j + Len(tok), 0) ELSE Fail
OptTok(s, i, tok) == LET r == Tok(s, i, tok) IN IF r.ok THEN Ok(r.p, TRUE) ELSE Ok(i, FALSE)
\* Optional whitespace; returns the position.
OptWS(s, i) == LET j == SkipC(s, i) k == SkipSet(s, j, WS) IN IF k > j THEN k ELSE j

NameStart == Alpha \cup {"_", "-"}
NameChars == AlNum \cup {"_", "-"}
VarName(s, i) ==
    LET j == SkipC(s, i) IN
    IF At(s, j) \in NameStart
    THEN LET e == SkipSet(s, j, NameChars) IN Ok(e, Slice(s, j, e)) ELSE Fail

IntLit(s, i) ==
    LET j == SkipC(s, i) e == SkipSet(s, j, Digits) IN
    IF e > j THEN Ok(e, Num(Slice(s, j, e))) ELSE Fail

Pow10 == <<1, 10, 100, 1000>>
\* Thousandths of "ip.fp" (fractions beyond three digits are out of scope).
Milli(ip, fp) ==
    LET f == IF Len(fp) > 3 THEN SubSeq(fp, 1, 3) ELSE fp
    IN (IF ip = "" THEN 0 ELSE Num(ip)) * 1000 + (IF f = "" THEN 0 ELSE Num(f) * Pow10[4 - Len(f)])

\* A real number needs a point; an integer has none.  Thousandths.
RealLit(s, i) ==
    LET j0 == SkipC(s, i)
        sign == IF At(s, j0) = "-" THEN -1 ELSE 1
        j == IF At(s, j0) \in {"+", "-"} THEN j0 + 1 ELSE j0
        d == SkipSet(s, j, Digits)
        e == SkipSet(s, d + 1, Digits)
    IN IF At(s, d) = "." /\ (d > j \/ e > d + 1)
       THEN Ok(e, sign * Milli(Slice(s, j, d), Slice(s, d + 1, e))) ELSE Fail

Symbols == [c \in {"~", "!", "@"} |-> CASE c = "~" -> "R" [] c = "!" -> "C" [] c = "@" -> "Y"]
OptSymbol(s, i) ==
    LET j == SkipC(s, i) IN
    IF At(s, j) \in {"~", "!", "@"} THEN Ok(j + 1, Symbols[At(s, j)]) ELSE Ok(i, "")

(* ------------------------------ literals ------------------------------- *)
CharsOf(tok) == {SubSeq(tok, i, i) : i \in 1..Len(tok)}
Excluded(K, kind) ==
    {"#"} \cup CharsOf(K.vs) \cup CharsOf(K.as) \cup CharsOf(K.ps)
          \cup (IF kind \in {"variant", "value", "side"} THEN {"|", "$"} \cup CharsOf(K.ve) ELSE {})
          \cup (IF kind = "value" THEN CharsOf(K.ae) ELSE {})   \* of a variable
          \cup (IF kind = "side" THEN CharsOf(K.pe) ELSE {})    \* of a wrap
          \cup (IF kind = "wildcard" THEN {"(", ")"} ELSE {})

RECURSIVE LitEnd(_, _, _, _)
LitEnd(K, s, i, X) ==
    IF i > Len(s) \/ SubSeq(s, i, i) \in X \/ StartsAt(s, i, K.ww) THEN i ELSE LitEnd(K, s, i + 1, X)

\* One run of text; runs separated only by comments are joined by a space.
RECURSIVE LitMore(_, _, _, _, _)
LitMore(K, s, i, X, acc) ==
    LET j == SkipC(s, i) e == LitEnd(K, s, j, X) IN
    IF e > j THEN LitMore(K, s, e, X, acc \o " " \o Slice(s, j, e)) ELSE Ok(i, Lit(acc))
Literal(K, s, i, kind) ==
    LET X == Excluded(K, kind) j == SkipC(s, i) e == LitEnd(K, s, j, X) IN
    IF e > j THEN LitMore(K, s, e, X, Slice(s, j, e)) ELSE Fail

(* ----------------------------- bounds ---------------------------------- *)
SepChars == CharSet \ {"$", "{", "}"}
Bound(s, i) ==   \* value: [lo, hi, sep] with -1 for an omitted end
    LET a == IntLit(s, i)
        h == IF a.ok THEN Tok(s, a.p, "-") ELSE Fail
        b == IF h.ok THEN IntLit(s, h.p) ELSE Fail
        h3 == Tok(s, i, "-")
        b3 == IF h3.ok THEN IntLit(s, h3.p) ELSE Fail
        rng == IF b.ok THEN Ok(b.p, <<a.v, b.v>>)
               ELSE IF b3.ok THEN Ok(b3.p, <<-1, b3.v>>)
               ELSE IF h.ok THEN Ok(h.p, <<a.v, -1>>)
               ELSE IF a.ok THEN Ok(a.p, <<a.v, a.v>>) ELSE Fail
        d == IF rng.ok THEN Tok(s, rng.p, "$$") ELSE Fail
    IN IF ~d.ok THEN Fail
       ELSE LET j == SkipC(s, d.p)
                e == SkipSet(s, j, SepChars)
                d2 == IF e > j THEN Tok(s, e, "$$") ELSE Fail
            IN IF d2.ok THEN Ok(d2.p, [lo |-> rng.v[1], hi |-> rng.v[2], sep |-> Slice(s, j, e)])
               ELSE Ok(d.p, [lo |-> rng.v[1], hi |-> rng.v[2], sep |-> ","])

Weight(s, i) ==
    LET r == RealLit(s, i)
        n == IF r.ok THEN r ELSE LET k == IntLit(s, i) IN IF k.ok THEN Ok(k.p, k.v * 1000) ELSE Fail
        d == IF n.ok THEN Tok(s, n.p, "::") ELSE Fail
    IN IF d.ok THEN Ok(d.p, n.v) ELSE Fail

(* ------------------------- recursive grammar --------------------------- *)
RECURSIVE Prompt(_, _, _), PromptMore(_, _, _, _), VPrompt(_, _, _, _), VPromptMore(_, _, _, _, _)
RECURSIVE Chunk(_, _, _), VChunk(_, _, _, _), Variants(_, _, _), Options(_, _, _, _)
RECURSIVE WildcardP(_, _, _), Path(_, _, _, _), Access(_, _, _), Assign(_, _, _), WrapP(_, _, _)
RECURSIVE ParseText(_, _), SpecVars(_, _, _)

SeqOrSingle(xs) == IF Len(xs) = 1 THEN xs[1] ELSE SeqC(xs)

PromptMore(K, s, i, acc) ==
    LET r == Chunk(K, s, i) IN
    IF r.ok THEN PromptMore(K, s, r.p, Append(acc, r.v)) ELSE Ok(i, SeqOrSingle(acc))
Prompt(K, s, i) == PromptMore(K, s, i, <<>>)

VPromptMore(K, s, i, kind, acc) ==
    LET r == VChunk(K, s, i, kind) IN
    IF r.ok THEN VPromptMore(K, s, r.p, kind, Append(acc, r.v)) ELSE Ok(i, SeqOrSingle(acc))
VPrompt(K, s, i, kind) == VPromptMore(K, s, i, kind, <<>>)

Chunk(K, s, i) ==
    LET a == Assign(K, s, i) IN IF a.ok THEN a ELSE
    LET g == Access(K, s, i) IN IF g.ok THEN g ELSE
    LET w == WrapP(K, s, i) IN IF w.ok THEN w ELSE
    LET v == Variants(K, s, i) IN IF v.ok THEN v ELSE
    LET c == WildcardP(K, s, i) IN IF c.ok THEN c ELSE Literal(K, s, i, "top")

VChunk(K, s, i, kind) ==
    LET g == Access(K, s, i) IN IF g.ok THEN g ELSE
    LET w == WrapP(K, s, i) IN IF w.ok THEN w ELSE
    LET v == Variants(K, s, i) IN IF v.ok THEN v ELSE
    LET c == WildcardP(K, s, i) IN IF c.ok THEN c ELSE Literal(K, s, i, kind)

Assign(K, s, i) ==
    LET a == Tok(s, i, K.as) IN IF ~a.ok THEN Fail ELSE
    LET n == VarName(s, OptWS(s, a.p)) IN IF ~n.ok THEN Fail ELSE
    LET q == OptTok(s, OptWS(s, n.p), "?")
        e == Tok(s, q.p, "=") IN IF ~e.ok THEN Fail ELSE
    LET b == OptTok(s, e.p, "!")
        v == VPrompt(K, s, OptWS(s, b.p), "value")
        z == Tok(s, OptWS(s, v.p), K.ae)
    IN IF z.ok THEN Ok(z.p, SetC(n.v, v.v, b.v, ~q.v)) ELSE Fail

Access(K, s, i) ==
    LET a == Tok(s, i, K.as) IN IF ~a.ok THEN Fail ELSE
    LET n == VarName(s, OptWS(s, a.p)) IN IF ~n.ok THEN Fail ELSE
    LET j == OptWS(s, n.p)
        c == Tok(s, j, ":")
        d == IF c.ok THEN VPrompt(K, s, OptWS(s, c.p), "value") ELSE Ok(j, NoneC)
        z == Tok(s, OptWS(s, d.p), K.ae)
    IN IF z.ok THEN Ok(z.p, GetC(n.v, d.v)) ELSE Fail

WrapP(K, s, i) ==
    LET a == Tok(s, i, K.ps) IN IF ~a.ok THEN Fail ELSE
    LET w == VPrompt(K, s, OptWS(s, a.p), "side")
        d == Tok(s, OptWS(s, w.p), "$$") IN IF ~d.ok THEN Fail ELSE
    LET n == VPrompt(K, s, OptWS(s, d.p), "side")
        z == Tok(s, n.p, K.pe)
    IN IF z.ok THEN Ok(z.p, WrapC(w.v, n.v)) ELSE Fail

\* A non-empty list of options separated by "|"; options may be empty.
Options(K, s, i, acc) ==
    LET w0 == OptWS(s, i)
        w == Weight(s, w0)
        v == VPrompt(K, s, IF w.ok THEN w.p ELSE w0, "variant")
        e == OptWS(s, v.p)
        acc2 == Append(acc, Opt(IF w.ok THEN w.v ELSE 1000, v.v))
        bar == Tok(s, e, "|")
    IN IF bar.ok THEN Options(K, s, bar.p, acc2) ELSE Ok(e, acc2)

Variants(K, s, i) ==
    LET a == Tok(s, i, K.vs) IN IF ~a.ok THEN Fail ELSE
    LET m == OptSymbol(s, OptWS(s, a.p))
        b == Bound(s, m.p)
        o == Options(K, s, OptWS(s, IF b.ok THEN b.p ELSE m.p), <<>>)
        z == Tok(s, OptWS(s, o.p), K.ve)
    IN IF ~z.ok THEN Fail
       ELSE IF ~b.ok THEN Ok(z.p, Variant(o.v, 1, 1, ",", m.v))
       ELSE Ok(z.p, Variant(o.v, IF b.v.lo = -1 THEN 1 ELSE b.v.lo,
                            IF b.v.hi = -1 THEN Len(o.v) ELSE b.v.hi, b.v.sep, m.v))

\* The name of a wildcard: text, variables (standing for their own name when
\* undefined) and variants, up to "(" or the closing wrap.
PathAccess(K, s, i) ==
    LET g == Access(K, s, i) IN
    IF ~g.ok THEN Fail
    ELSE LET d == g.v.d IN
         IF d.t = "none" \/ (d.t = "seq" /\ d.xs = <<>>) THEN Ok(g.p, GetC(g.v.n, Lit(g.v.n)))
         ELSE IF d.t = "lit" THEN Ok(g.p, GetC(g.v.n, Lit(Strip(d.s))))
         ELSE Ok(g.p, GetC(g.v.n, d))
PathChunk(K, s, i) ==
    LET g == PathAccess(K, s, i) IN IF g.ok THEN g ELSE
    LET v == Variants(K, s, i) IN IF v.ok THEN v ELSE
    LET c == Literal(K, s, i, "wildcard") IN IF c.ok THEN c ELSE Literal(K, s, i, "variant")
Path(K, s, i, acc) ==
    LET stop == At(s, SkipSet(s, SkipC(s, i), WS)) = "("
        r == IF stop THEN Fail ELSE PathChunk(K, s, i)
    IN IF r.ok THEN Path(K, s, r.p, Append(acc, r.v))
       ELSE IF acc = <<>> THEN Fail ELSE Ok(i, SeqOrSingle(acc))

\* Parameters: "name=value" pairs separated by commas.
RECURSIVE SetVar(_, _, _)
SetVar(vars, n, v) ==
    IF vars = <<>> THEN <<[n |-> n, v |-> v]>>
    ELSE IF Head(vars).n = n THEN <<[n |-> n, v |-> v]>> \o Tail(vars)
    ELSE <<Head(vars)>> \o SetVar(Tail(vars), n, v)
SpecVars(K, pairs, acc) ==
    IF pairs = <<>> THEN acc
    ELSE LET e == Find(Head(pairs), 1, "=")
             n == IF e = 0 THEN Head(pairs) ELSE Slice(Head(pairs), 1, e)
             v == IF e = 0 THEN "" ELSE From(Head(pairs), e + 1)
             t == ParseText(K, Strip(v))
         IN IF t.t = "bad" THEN <<[n |-> "", v |-> BadC]>>
            ELSE SpecVars(K, Tail(pairs), SetVar(acc, Strip(n), t))

HasBad(vars) == \E i \in 1..Len(vars) : vars[i].v.t = "bad"

WildcardP(K, s, i) ==
    LET a == Tok(s, i, K.ww) IN IF ~a.ok THEN Fail ELSE
    LET m == OptSymbol(s, a.p)
        p == Path(K, s, m.p, <<>>) IN IF ~p.ok THEN Fail ELSE
    LET o == Tok(s, OptWS(s, p.p), "(")
        j == IF o.ok THEN SkipC(s, o.p) ELSE 0
        b == IF o.ok THEN Find(s, j, ")") ELSE 0
        e == IF b = 0 THEN Len(s) + 1 ELSE b
        c == IF o.ok /\ e > j THEN Tok(s, e, ")") ELSE Fail
        vars == IF c.ok THEN SpecVars(K, Split(Slice(s, j, e), ","), <<>>) ELSE <<>>
        z == Tok(s, IF c.ok THEN c.p ELSE p.p, K.ww)
    IN IF z.ok /\ ~HasBad(vars) THEN Ok(z.p, Wildcard(p.v, m.v, vars)) ELSE Fail

RECURSIVE Broken(_)
Broken(c) ==
    CASE c.t = "bad" -> TRUE
      [] c.t = "seq" -> \E i \in 1..Len(c.xs) : Broken(c.xs[i])
      [] c.t = "var" -> \E i \in 1..Len(c.opts) : Broken(c.opts[i].v)
      [] c.t = "wc" -> Broken(c.path)
      [] c.t = "get" -> Broken(c.d)
      [] c.t = "set" -> Broken(c.v)
      [] c.t = "wrap" -> Broken(c.w) \/ Broken(c.i)
      [] OTHER -> FALSE

\* The whole string must be consumed (up to trailing comments).
ParseText(K, s) ==
    LET r == Prompt(K, s, 1)
        e == SkipSet(s, SkipC(s, r.p), WS)
    IN IF e > Len(s) /\ ~Broken(r.v) THEN r.v ELSE BadC
=============================================================================
