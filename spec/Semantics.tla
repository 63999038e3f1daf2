----------------------------- MODULE Semantics ------------------------------
(***************************************************************************)
(* The meaning of templates.  Streams(c, x, n) is the set of streams that  *)
(* sampling command c in context x may produce, cut after n prompts.       *)
(*                                                                         *)
(* A stream is a sequence of sets: the i-th prompt is some element of the  *)
(* i-th set (a singleton wherever the outcome is determined).  Choices     *)
(* that are made once per sampling run ("=!" variables and computed        *)
(* wildcard names) give several streams; choices made anew for every       *)
(* prompt give sets with several elements.                                 *)
(*                                                                         *)
(* Outcomes starting with "!!" are errors.  The outcome "??" means that    *)
(* the specification does not decide the case (only possible for           *)
(* combinatorial selections among parts that are themselves random).       *)
(*                                                                         *)
(* A context is [m, vars, being, lib, K, ww, dedup, sort, ws, unk, err]:   *)
(* sampling mode "R", "C" or "Y", variables (name -> command), names being *)
(* evaluated, wildcard library, syntax, wildcard wrap of the library,      *)
(* its settings, whitespace squashing, value of undefined variables        *)
(* (NoneC: error), and a pending error.                                    *)
(***************************************************************************)
EXTENDS Grammar, Wildcards

EmptyVars == [n \in {} |-> NoneC]
MkCtx(m, lib, K, ws) ==
    [m |-> m, vars |-> EmptyVars, being |-> {}, lib |-> lib, K |-> K, ww |-> K.ww,
     dedup |-> TRUE, sort |-> TRUE, ws |-> ws, unk |-> NoneC, err |-> ""]

IsErr(o) == StartsWith(o, "!!")
Unclear == "??"

(* --------------------- combinatorics on sequences ---------------------- *)
\* Set of tuples with one element of each set of a sequence of sets.
RECURSIVE Tuples(_)
Tuples(ss) ==
    IF ss = <<>> THEN {<<>>}
    ELSE LET rest == TLCEval(Tuples(Tail(ss))) IN {<<h>> \o t : h \in Head(ss), t \in rest}

\* The texts of selections made of one outcome of each set.
FirstBad(t) == IF \E i \in 1..Len(t) : IsErr(t[i]) \/ t[i] = Unclear
               THEN LET i == CHOOSE i \in 1..Len(t) :
                                /\ IsErr(t[i]) \/ t[i] = Unclear
                                /\ \A j \in 1..(i - 1) : ~(IsErr(t[j]) \/ t[j] = Unclear)
                    IN t[i]
               ELSE ""
JoinTuple(t, sep) == LET b == FirstBad(t) IN IF b # "" THEN b ELSE Joined(t, sep)
\* Where several parts fail, which failure is reported is not specified.
Bads(t) == {t[i] : i \in {j \in 1..Len(t) : IsErr(t[j]) \/ t[j] = Unclear}}
JoinAny(t, sep) == LET b == Bads(t) IN IF b # {} THEN b ELSE {Joined(t, sep)}
JoinSets(ss, sep) == UNION {JoinAny(t, sep) : t \in Tuples(ss)}
\* Concatenation, folded so that intermediate sets stay small.
Cat2(a, b) == IF IsErr(a) \/ a = Unclear THEN a ELSE IF IsErr(b) \/ b = Unclear THEN b ELSE a \o b
RECURSIVE CatSets(_, _)
CatSets(ss, acc) ==
    IF ss = <<>> THEN acc
    ELSE CatSets(Tail(ss), UNION {IF Bads(<<a, b>>) # {} THEN Bads(<<a, b>>) ELSE {a \o b}
                                  : a \in acc, b \in Head(ss)})

\* Ordered selections of k of the positions in sequence ps, in order of
\* position: leftmost slowest.  At most cap of them are computed.
RECURSIVE Perms(_, _, _), PermsFrom(_, _, _, _)
Without(ps, i) == SubSeq(ps, 1, i - 1) \o SubSeq(ps, i + 1, Len(ps))
Perms(ps, k, cap) == IF k = 0 THEN << <<>> >> ELSE PermsFrom(ps, 1, k, cap)
PermsFrom(ps, i, k, cap) ==
    IF i > Len(ps) \/ cap <= 0 THEN <<>>
    ELSE LET sub == TLCEval(Perms(Without(ps, i), k - 1, cap))
             here == TLCEval([j \in 1..Min2(Len(sub), cap) |-> <<ps[i]>> \o sub[j]])
         IN here \o PermsFrom(ps, i + 1, k, cap - Len(here))
RECURSIVE Selections(_, _, _, _)
Selections(n, lo, hi, cap) ==
    IF lo > hi \/ cap <= 0 THEN <<>>
    ELSE LET h == TLCEval(Perms([i \in 1..n |-> i], lo, cap))
         IN h \o Selections(n, lo + 1, hi, cap - Len(h))

Const(n, o) == [i \in 1..n |-> {o}]
ErrStream(e) == { << {e} >> }

\* A stream stops at the first row that certainly is an error.
CutAt(s0) ==
    LET s == TLCEval(s0) IN
    IF \E i \in 1..Len(s) : \A o \in s[i] : IsErr(o)
    THEN SubSeq(s, 1, CHOOSE i \in 1..Len(s) : (\A o \in s[i] : IsErr(o)) /\
                                               \A j \in 1..(i - 1) : \E o \in s[j] : ~IsErr(o))
    ELSE s

\* The i-th outcomes of a stream; a stream without any is not decided.
Nth(s, i) == IF s = <<>> THEN {Unclear} ELSE s[Min2(i, Len(s))]
The(ss0) == LET ss == TLCEval(ss0) IN
            IF Cardinality(ss) = 1 THEN CHOOSE s \in ss : TRUE ELSE << {Unclear} >>

(* ------------------------------ contexts ------------------------------- *)
\* Any command of a tree built by hand may carry a mark.
Mark(c) == IF c.t \in {"var", "wc"} THEN c.m ELSE IF "m" \in DOMAIN c THEN c.m ELSE ""
SepOf(c) == IF "sep" \in DOMAIN c THEN c.sep ELSE ""
Eff(c, x) == IF Mark(c) = "" THEN x.m
             ELSE IF Mark(c) = "C" /\ x.m # "C" THEN x.m ELSE Mark(c)

Bind(x, n, v) == [x EXCEPT !.vars = (n :> v) @@ x.vars]
RECURSIVE BindAll(_, _)
BindAll(x, vs) == IF vs = <<>> THEN x ELSE BindAll(Bind(x, Head(vs).n, Head(vs).v), Tail(vs))

Lookup(c, x) == IF c.n \in DOMAIN x.vars THEN x.vars[c.n] ELSE c.d

\* The method a part of a combinatorial sequence is sampled with: a variable
\* counts as its current value.
RECURSIVE PartMethod(_, _)
PartMethod(c, x) ==
    IF Mark(c) # "" THEN Mark(c)
    ELSE IF c.t = "get" /\ c.n \notin x.being /\ Lookup(c, x).t # "none"
         THEN PartMethod(Lookup(c, x), [x EXCEPT !.being = @ \cup {c.n}])
         ELSE x.m
NonFinite(c, x) == PartMethod(c, x) # "C"

Squashed(x, s) == IF x.ws THEN [i \in 1..Len(s) |->
                                  {IF IsErr(o) \/ o = Unclear THEN o ELSE Squash(o) : o \in s[i]}]
                  ELSE s

(* ------------------------------ meaning -------------------------------- *)
RECURSIVE Streams(_, _, _), VarStreams(_, _, _), SeqStreams(_, _, _, _), Envs(_, _, _)
RECURSIVE CombRows(_, _, _, _), WcStreams(_, _, _), ConcatValues(_, _, _, _)

Sample(c, x, n) == {Squashed(x, s) : s \in Streams(c, x, n)}
SampleText(txt, x, n) == Sample(ParseText(x.K, txt), x, n)

FirstOf(ss) == UNION {IF s = <<>> THEN {"!!RuntimeError"} ELSE s[1] : s \in ss}
First(c, x) == FirstOf(Streams(c, x, 1))
FirstSample(c, x) == FirstOf(Sample(c, x, 1))

Streams(c, x0, n) ==
    IF n = 0 THEN {<<>>}
    ELSE LET x == [x0 EXCEPT !.m = Eff(c, x0)] IN
    CASE c.t = "lit" -> {IF x.m = "C" THEN << {c.s} >> ELSE Const(n, c.s)}
      [] c.t = "bad" -> ErrStream("!!Parse")
      [] c.t = "seq" ->
            UNION {IF y.err # "" THEN ErrStream(y.err)
                   ELSE SeqStreams(SelectSeq(c.xs, LAMBDA d : d.t # "set"), y, n, SepOf(c))
                   : y \in Envs(c.xs, x, 1)}
      [] c.t = "var" -> VarStreams(c, x, n)
      [] c.t = "wc" -> WcStreams(c, x, n)
      [] c.t = "get" ->
            LET v0 == Lookup(c, x)
                v == IF v0.t = "none" THEN x.unk ELSE v0
            IN IF v.t = "none" THEN ErrStream("!!KeyError")
               ELSE IF c.n \in x.being THEN ErrStream("!!RecursionError")
               ELSE Streams(v, [x EXCEPT !.being = @ \cup {c.n}], n)
      [] c.t = "wrap" ->
            IF x.m = "C" /\ (NonFinite(c.w, x) \/ NonFinite(c.i, x)) THEN { << {Unclear} >> }   \* never ends
            ELSE IF x.m = "C"
            THEN LET ws == TLCEval(The(Sample(c.w, x, n)))
                     is == TLCEval(The(Sample(c.i, x, n)))
                     rows == [r \in 1..(Len(ws) * Len(is)) |->
                                LET a == ws[((r - 1) \div Len(is)) + 1]
                                    b == is[((r - 1) % Len(is)) + 1]
                                IN UNION {LET bad == Bads(<<o, p>>) IN IF bad # {} THEN bad ELSE {WrapText(o, p)}
                                          : o \in a, p \in b}]
                 IN {CutAt(Take(rows, n))}
            ELSE {CutAt([i \in 1..Min2(Len(t[1]), Len(t[2])) |->
                        UNION {LET bad == Bads(<<o, p>>) IN IF bad # {} THEN bad ELSE {WrapText(o, p)}
                               : o \in t[1][i], p \in t[2][i]}])
                  : t \in Tuples(<<Streams(c.w, x, n), Streams(c.i, x, n)>>)}
      [] c.t = "set" -> ErrStream("!!NotImplementedError")

(* Assignments are processed in order, each in the scope of the previous   *)
(* ones; an immediate one is evaluated here, once.                         *)
Envs(cs, x, i) ==
    IF i > Len(cs) \/ x.err # "" THEN {x}
    ELSE IF cs[i].t # "set" THEN Envs(cs, x, i + 1)
    ELSE IF ~cs[i].ow /\ cs[i].n \in DOMAIN x.vars THEN Envs(cs, x, i + 1)
    ELSE IF ~cs[i].imm \/ cs[i].v.t = "lit" THEN Envs(cs, Bind(x, cs[i].n, cs[i].v), i + 1)
    ELSE UNION {Envs(cs, IF IsErr(o) THEN [x EXCEPT !.err = o] ELSE Bind(x, cs[i].n, Lit(o)), i + 1)
                : o \in First(cs[i].v, x)}

(* A sequence.  Randomly or cyclically, all parts advance together.        *)
(* Combinatorially, the rows enumerate the finite parts, leftmost slowest; *)
(* the other parts advance by one per row.  The parts of a sequence built  *)
(* by hand may have a separator between them; what happens to empty parts  *)
(* and separators at its ends is then left open.                           *)
Glue(parts, sep) ==
    IF sep = "" \/ Len(parts) < 2 THEN CatSets(parts, {""})
    ELSE IF \E o \in parts[1] : o = "" \/ StartsWith(o, sep) THEN {Unclear}
    ELSE IF \E o \in parts[Len(parts)] : o = "" \/ EndsWith(o, sep) THEN {Unclear}
    ELSE JoinSets(parts, sep)
SeqStreams(cs, x, n, sep) ==
    LET ahead == [i \in 1..Len(cs) |-> IF x.m = "C" /\ NonFinite(cs[i], x) THEN 1 ELSE 0]
        alts == TLCEval(Tuples(TLCEval([i \in 1..Len(cs) |-> Streams(cs[i], x, n + ahead[i])]))) IN
    IF x.m # "C"
    THEN {LET len == IF \E i \in 1..Len(cs) : Len(t[i]) < n
                     THEN CHOOSE k \in 0..n : (\E i \in 1..Len(cs) : Len(t[i]) = k)
                                              /\ \A i \in 1..Len(cs) : Len(t[i]) >= k
                     ELSE n
          IN CutAt([r \in 1..len |-> Glue([i \in 1..Len(cs) |-> t[i][r]], sep)])
          : t \in alts}
    ELSE LET fin == {i \in 1..Len(cs) : ~NonFinite(cs[i], x)}
             cap == n + 1
             \* number of rows per step of part i - 1: the combinations of the parts i..
             Weights(t) ==
                LET w[i \in 1..(Len(cs) + 1)] ==
                        IF i > Len(cs) THEN 1
                        ELSE IF i \in fin THEN Min2(cap, Len(t[i]) * w[i + 1]) ELSE w[i + 1]
                IN [i \in 1..(Len(cs) + 1) |-> w[i]]
             Row(t, w, r) ==   \* r counts from 0
                Glue([i \in 1..Len(cs) |->
                            IF i \in fin THEN t[i][((r \div w[i + 1]) % Len(t[i])) + 1]
                            ELSE Nth(t[i], r + 1)
                                 \* values may be drawn one ahead, so failures may come one early
                                 \cup {o \in Nth(t[i], r + 2) : IsErr(o)}], sep)
             Rows(t) == LET w == TLCEval(Weights(t)) IN [r \in 1..Min2(n, w[1]) |-> Row(t, w, r - 1)]
             \* which of an error and the absence of alternatives comes first is not decided
             Mixed(t) == /\ \E i \in 1..Len(cs) : t[i] = <<>>
                         /\ \E i \in 1..Len(cs) : \E j \in 1..Len(t[i]) : \E o \in t[i][j] : IsErr(o)
         IN {IF Mixed(t) THEN << {Unclear} >>
             ELSE CutAt(Rows(t)) : t \in alts}

(* A variant whose only option is a wildcard selects among its values.     *)
ClipLo(c) == Min2(c.lo, Len(c.opts))
ClipHi(c) == Min2(c.hi, Len(c.opts))

Values(p, x) == Resolve(x.lib, p, x.ww, x.dedup, x.sort)
AsVariant(c, p, x) ==
    LET vs == TLCEval(Values(p, x))
        os == IF vs = <<>> THEN << Opt(1000, Lit(ToWildcard(p, x.ww))) >>
              ELSE TLCEval([i \in 1..Len(vs) |-> Opt(vs[i].w, ParseText(x.K, vs[i].s))])
    IN Variant(os, Min2(c.lo, Len(os)), Min2(c.hi, Len(os)), c.sep, "")

\* Rows of one combinatorial selection: tuples of outcome sets.
CombRows(cs, i, x, n) ==
    IF i > Len(cs) THEN << <<>> >>
    ELSE LET rest == TLCEval(CombRows(cs, i + 1, x, n))
             s == TLCEval(The(Streams(cs[i], x, IF NonFinite(cs[i], x) THEN Max2(1, Len(rest)) ELSE n)))
         IN IF NonFinite(cs[i], x)
            THEN [r \in 1..Len(rest) |-> << Nth(s, r) >> \o rest[r]]
            ELSE [r \in 1..(Len(s) * Len(rest)) |->
                    << s[((r - 1) \div Len(rest)) + 1] >> \o rest[((r - 1) % Len(rest)) + 1]]

\* Selections that read the same are produced once, and a selection never
\* contains the same text twice.
Single(S) == Cardinality(S) = 1
Fixed(row) == \A i \in 1..Len(row) : Single(row[i])
Overlap(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i] \cap b[i] # {}
Repeats(row) == \E i, j \in 1..Len(row) : i < j /\ Single(row[i]) /\ row[i] = row[j]
MayRepeat(row) == \E i, j \in 1..Len(row) : i < j /\ row[i] \cap row[j] # {}
RECURSIVE UniqueRows(_, _, _), UniqueFixed(_, _, _, _)
UniqueFixed(rows, i, seen, acc) ==
    IF i > Len(rows) THEN acc
    ELSE IF rows[i] \in seen \/ Repeats(rows[i]) THEN UniqueFixed(rows, i + 1, seen, acc)
    ELSE UniqueFixed(rows, i + 1, seen \cup {rows[i]}, Append(acc, rows[i]))
UniqueRows(rows, k, acc) ==
    IF k > Len(rows) THEN acc
    ELSE LET r == rows[k]
             bad == \E i \in 1..Len(r) : Unclear \in r[i]
             fails == \E i \in 1..Len(r) : \A o \in r[i] : IsErr(o)
         IN IF fails /\ ~bad THEN Append(acc, r)
            ELSE IF Repeats(r) THEN UniqueRows(rows, k + 1, acc)
            ELSE IF bad \/ MayRepeat(r) THEN << << {Unclear} >> >>
            ELSE IF \E i \in 1..Len(acc) : acc[i] = r /\ Fixed(r) THEN UniqueRows(rows, k + 1, acc)
            ELSE IF \E i \in 1..Len(acc) : Overlap(acc[i], r) THEN << << {Unclear} >> >>
            ELSE UniqueRows(rows, k + 1, Append(acc, r))
Plain(row) == Fixed(row) /\ \A i \in 1..Len(row) : \A o \in row[i] : ~IsErr(o) /\ o # Unclear
Unique(rows) == IF \A k \in 1..Len(rows) : Plain(rows[k]) THEN UniqueFixed(rows, 1, {}, <<>>)
                ELSE UniqueRows(rows, 1, <<>>)

AllDistinctLits(os) ==
    /\ \A i \in 1..Len(os) : os[i].v.t = "lit"
    /\ \A i, j \in 1..Len(os) : i < j => os[i].v.s # os[j].v.s
NoCap == 100000
Enough == 700   \* more alternatives than any case that is decided has

VarStreams(c, x, n) ==
    IF Len(c.opts) = 0 THEN {<<>>}
    ELSE IF \E i \in 1..Len(c.opts) : c.opts[i].v.t = "bad" THEN ErrStream("!!Parse")
    ELSE IF Len(c.opts) = 1 /\ c.opts[1].v.t = "wc"
    THEN IF x.m = "C" /\ Cardinality(FirstSample(c.opts[1].v.path, x)) > 1 THEN { << {Unclear} >> } ELSE
         UNION {IF p = Unclear THEN {<< {Unclear} >>} ELSE IF IsErr(p) THEN ErrStream(p)
                ELSE VarStreams(AsVariant(c, p, x), BindAll(x, c.opts[1].v.vars), n)
                : p \in FirstSample(c.opts[1].v.path, x)}
    ELSE CASE x.m = "R" ->
            IF Len(c.opts) = 1
            \* an option that cannot even be started may be reported though it is left out
            THEN {LET fails == IF s = <<>> THEN {} ELSE {o \in s[1] : IsErr(o)}
                  IN IF ClipLo(c) = 1 THEN s
                  ELSE IF ClipHi(c) = 0 THEN [r \in 1..n |-> IF r = 1 THEN {""} \cup fails ELSE {""}]
                  ELSE [r \in 1..Len(s) |-> {""} \cup UNION {s[j] : j \in 1..r}]
                  : s \in Streams(c.opts[1].v, x, n)}
            ELSE LET f == TLCEval([i \in 1..Len(c.opts) |-> First(c.opts[i].v, x)])
                     pos == SelectSeq([i \in 1..Len(c.opts) |-> i], LAMBDA i : c.opts[i].w > 0)
                     Draw(k) == IF k > Len(pos) THEN {"!!ValueError"}
                                ELSE LET ps == TLCEval(Perms(pos, k, NoCap))
                                     IN UNION {JoinSets([j \in 1..k |-> f[ps[q][j]]], c.sep) : q \in 1..Len(ps)}
                     one == TLCEval(UNION {Draw(k) : k \in ClipLo(c)..ClipHi(c)})
                 IN {[r \in 1..n |-> one]}
      [] x.m = "C" ->
            LET sel == TLCEval(Selections(Len(c.opts), ClipLo(c), ClipHi(c), IF AllDistinctLits(c.opts) THEN n ELSE NoCap))
                rows == TLCEval(Flatten([q \in 1..Len(sel) |->
                            CombRows([j \in 1..Len(sel[q]) |-> c.opts[sel[q][j]].v], 1, x,
                                     IF AllDistinctLits(c.opts) THEN n ELSE Max2(n, Enough))]))
                uniq == TLCEval(Unique(rows))
            IN {CutAt(Take([r \in 1..Len(uniq) |-> JoinSets(uniq[r], c.sep)], n))}
      [] x.m = "Y" ->
            LET total == Len(Selections(Len(c.opts), ClipLo(c), ClipHi(c), n + 1))
                sel == TLCEval(Selections(Len(c.opts), ClipLo(c), ClipHi(c), n))
                K == IF total > n THEN n ELSE total
                turns == ((n - 1) \div K) + 1
                el == TLCEval([i \in 1..Len(c.opts) |-> The(Streams(c.opts[i].v, x, turns))])
                Pick(i, q) == Nth(el[i], q)
            IN {CutAt([r \in 1..n |->
                    LET ps == sel[((r - 1) % K) + 1]
                        q == ((r - 1) \div K) + 1
                    IN JoinSets([j \in 1..Len(ps) |-> Pick(ps[j], q)], c.sep)])}

(* A wildcard: its name is computed once, then its values are drawn,       *)
(* enumerated (weight w: int(w) times) or cycled through.                  *)
RECURSIVE Slots(_)
Slots(vs) == IF vs = <<>> THEN <<>>
             ELSE [i \in 1..(Head(vs).w \div 1000) |-> Head(vs).s] \o Slots(Tail(vs))
ConcatValues(txts, i, x, n) ==
    IF i > Len(txts) \/ n <= 0 THEN <<>>
    ELSE IF NonFinite(ParseText(x.K, txts[i]), x) THEN << {Unclear} >>   \* never ends
    ELSE LET s == TLCEval(The(SampleText(txts[i], x, n)))
             bad == Len(s) > 0 /\ (\E o \in s[Len(s)] : IsErr(o) \/ o = Unclear)
         IN IF bad THEN s ELSE s \o ConcatValues(txts, i + 1, x, n - Len(s))

\* A name that is drawn in a combinatorial run may be drawn again whenever the
\* values are gone through once more.
DrawnName(c, x) == x.m = "C" /\ Cardinality(FirstSample(c.path, x)) > 1
WcStreams(c, x0, n) ==
    IF DrawnName(c, x0) THEN { << {Unclear} >> } ELSE
    UNION {
        IF p = Unclear THEN {<< {Unclear} >>} ELSE IF IsErr(p) THEN ErrStream(p)
        ELSE LET x == BindAll(x0, c.vars)
                 vs == TLCEval(Values(p, x))
                 name == ToWildcard(p, x.ww)
             IN IF vs = <<>> THEN {IF x.m = "C" THEN << {name} >> ELSE Const(n, name)}
                ELSE CASE x.m = "R" ->
                        LET even == \A i \in 1..Len(vs) : vs[i].w = vs[1].w
                            live == {i \in 1..Len(vs) : even \/ vs[i].w > 0}
                            one == TLCEval(UNION {FirstOf(SampleText(vs[i].s, x, 1)) : i \in live})
                        IN {[r \in 1..n |-> one]}
                  [] x.m = "C" -> {CutAt(ConcatValues(Slots(vs), 1, x, n))}
                  [] x.m = "Y" ->
                        LET sl == TLCEval(Slots(vs)) K == Len(sl) IN
                        IF K = 0 \/ (\E i \in 1..K : ParseText(x.K, sl[i]).t = "bad") THEN { << {Unclear} >> }
                        ELSE LET turns == ((n - 1) \div K) + 1
                                 el == TLCEval([i \in 1..Min2(K, n) |-> The(SampleText(sl[i], x, turns))])
                             IN {CutAt([r \in 1..n |->
                                    LET s == el[((r - 1) % K) + 1]
                                    IN Nth(s, ((r - 1) \div K) + 1)])}
        : p \in FirstSample(c.path, x0)}

(* ------------------------------- size ---------------------------------- *)
(* An upper estimate of the number of alternatives of a command, cut at    *)
(* Huge, used only to leave out cases that are too large to enumerate.     *)
Huge == 100000
CapMul(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE IF a > Huge \div b THEN Huge ELSE a * b
CapAdd(a, b) == Min2(Huge, a + b)
RECURSIVE Size(_, _, _), SizeMul(_, _, _, _), SizeSum(_, _, _, _), SizeSel(_, _, _, _)
SizeMul(cs, i, x, d) == IF i > Len(cs) THEN 1 ELSE CapMul(Size(cs[i], x, d), SizeMul(cs, i + 1, x, d))
SizeSum(cs, i, x, d) == IF i > Len(cs) THEN 0 ELSE CapAdd(Size(cs[i], x, d), SizeSum(cs, i + 1, x, d))
\* selections of k = lo..hi of n options that have m alternatives together
SizeSel(lo, hi, n, m) ==
    LET One[k \in 0..hi] == IF k = 0 THEN 1 ELSE CapMul(One[k - 1], m)
        Sum[k \in lo..(hi + 1)] == IF k > hi THEN 0 ELSE CapAdd(One[k], Sum[k + 1])
    IN IF lo > hi THEN 0 ELSE Sum[lo]
Size(c, x, d) ==
    IF d = 0 THEN Huge
    ELSE CASE c.t = "seq" ->
            LET f[i \in 1..(Len(c.xs) + 1)] ==   \* context after the assignments
                  IF i = 1 THEN x
                  ELSE IF c.xs[i - 1].t = "set" /\ (c.xs[i - 1].ow \/ c.xs[i - 1].n \notin DOMAIN f[i - 1].vars)
                       THEN Bind(f[i - 1], c.xs[i - 1].n, c.xs[i - 1].v) ELSE f[i - 1]
                imm == SizeMul(SelectSeq(c.xs, LAMBDA e : e.t = "set" /\ e.imm), 1, x, d - 1)
            IN CapMul(imm, SizeMul(SelectSeq(c.xs, LAMBDA e : e.t # "set"), 1, f[Len(c.xs) + 1], d - 1))
      [] c.t = "set" -> Size(c.v, x, d - 1)
      [] c.t = "var" ->
            IF Len(c.opts) = 1 /\ c.opts[1].v.t = "wc"
            THEN LET m == Size(c.opts[1].v, x, d - 1)
                 IN SizeSel(Min2(c.lo, m), Min2(c.hi, m), m, m)
            ELSE LET all == SizeSel(ClipLo(c), ClipHi(c), Len(c.opts),
                                    SizeSum([i \in 1..Len(c.opts) |-> c.opts[i].v], 1, x, d - 1))
                 IN IF x.m = "C" /\ c.m \in {"", "C"} /\ AllDistinctLits(c.opts)
                    THEN Min2(all, 60)   \* enumerated only as far as needed
                    ELSE all
      [] c.t = "wc" ->
            LET ps == IF c.path.t = "lit" THEN {c.path.s} ELSE FirstSample(c.path, x)
                y == BindAll(x, c.vars)
                One(p) == LET vs == Values(p, x) IN
                          Max2(1, SizeSum([i \in 1..Len(vs) |-> ParseText(x.K, vs[i].s)], 1, y, d - 1))
            IN LET all == {One(p) : p \in ps}
                   big == CHOOSE a \in all : \A b \in all : a >= b
               IN CapMul(Cardinality(ps), big)
      [] c.t = "get" ->
            LET v == Lookup(c, x) IN
            IF v.t = "none" \/ c.n \in x.being THEN 1 ELSE Size(v, [x EXCEPT !.being = @ \cup {c.n}], d - 1)
      [] c.t = "wrap" -> CapMul(Size(c.w, x, d - 1), Size(c.i, x, d - 1))
      [] OTHER -> 1

\* The parts of a combinatorial sequence are enumerated lazily.
TooLarge(c, x, limit) ==
    IF c.t = "seq" /\ x.m = "C"
    THEN LET fin == SelectSeq(c.xs, LAMBDA e : e.t = "set" \/ ~NonFinite(e, x))
             non == SelectSeq(c.xs, LAMBDA e : e.t # "set" /\ NonFinite(e, x))
             y == BindAll(x, [i \in 1..Len(SelectSeq(c.xs, LAMBDA e : e.t = "set")) |->
                                LET e == SelectSeq(c.xs, LAMBDA e : e.t = "set")[i] IN [n |-> e.n, v |-> e.v]])
         IN CapAdd(SizeSum(fin, 1, y, 12), SizeMul(non, 1, y, 12)) > limit
    ELSE Size(c, x, 12) > limit

(* --------------------------- whole templates --------------------------- *)
\* What a run over a template may produce; the empty template produces nothing.
Prompts(txt, x, n) == IF txt = "" THEN {<<>>} ELSE SampleText(txt, x, n)

Undecided(ss) == \E s \in ss : \E i \in 1..Len(s) : Unclear \in s[i]

\* Does an observed list of prompts (an error, if any, last) fit a stream?
Fits(out, s) ==
    \/ Len(out) = Len(s) /\ \A i \in 1..Len(s) : out[i] \in s[i]
    \/ /\ out # <<>>
       /\ Len(out) <= Len(s)
       /\ IsErr(out[Len(out)])
       /\ \A i \in 1..(Len(out) - 1) : out[i] \in s[i]
       /\ \E j \in Len(out)..Len(s) : out[Len(out)] \in s[j]
=============================================================================
