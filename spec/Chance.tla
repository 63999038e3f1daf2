------------------------------- MODULE Chance -------------------------------
(***************************************************************************)
(* Probabilities.  Dist(c, x) is the exact distribution of the first       *)
(* prompt of a random run over command c: a function from prompts to       *)
(* rational numbers <<n, d>>.  Numbers that grow too large for TLC become  *)
(* Unknown, and what depends on them is not decided.                       *)
(***************************************************************************)
EXTENDS Semantics

Unknown == <<-1, 1>>
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
MaxDen == 20000
Rat(n, d) == LET g == Gcd(n, d) IN IF d \div g > MaxDen THEN Unknown ELSE <<n \div g, d \div g>>
Mul(p, q) ==
    IF p = Unknown \/ q = Unknown THEN Unknown
    ELSE LET g == Gcd(p[1], q[2]) h == Gcd(q[1], p[2])
             dd == (p[2] \div h) * (q[2] \div g)
         IN IF (p[2] \div h) > MaxDen \div (q[2] \div g) THEN Unknown
            ELSE Rat((p[1] \div g) * (q[1] \div h), dd)
Add(p, q) ==
    IF p = Unknown \/ q = Unknown THEN Unknown
    ELSE LET g == Gcd(p[2], q[2]) IN
         IF p[2] \div g > MaxDen \div q[2] THEN Unknown
         ELSE Rat(p[1] * (q[2] \div g) + q[1] * (p[2] \div g), (p[2] \div g) * q[2])
RECURSIVE SumSeq(_, _)
SumSeq(s, acc) == IF s = <<>> THEN acc ELSE SumSeq(Tail(s), Add(Head(s), acc))

(* Distributions as sequences of [o, p], outcomes possibly repeated.       *)
RECURSIVE Collect(_, _)
Collect(xs, f) ==
    IF xs = <<>> THEN f
    ELSE LET h == Head(xs) IN
         Collect(Tail(xs), IF h.o \in DOMAIN f THEN [f EXCEPT ![h.o] = Add(@, h.p)] ELSE (h.o :> h.p) @@ f)
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET e == CHOOSE e \in S : TRUE IN <<e>> \o SetToSeq(S \ {e})
Merge(xs) ==
    LET f == TLCEval(Collect(xs, [o \in {} |-> Unknown]))
        ds == SetToSeq(DOMAIN f)
    IN [i \in 1..Len(ds) |-> [o |-> ds[i], p |-> f[ds[i]]]]
Sure(o) == << [o |-> o, p |-> <<1, 1>>] >>
Scale(p, ds) == [i \in 1..Len(ds) |-> [o |-> ds[i].o, p |-> Mul(p, ds[i].p)]]
\* Joint distribution of independent parts, as tuples of texts.
RECURSIVE Joint(_)
Joint(dss) ==
    IF dss = <<>> THEN << [o |-> <<>>, p |-> <<1, 1>>] >>
    ELSE LET rest == TLCEval(Joint(Tail(dss))) h == Head(dss)
         IN Flatten([i \in 1..Len(h) |->
                        [j \in 1..Len(rest) |-> [o |-> <<h[i].o>> \o rest[j].o, p |-> Mul(h[i].p, rest[j].p)]]])
RECURSIVE CatDist(_, _)
CatDist(dss, acc) ==
    IF dss = <<>> THEN acc
    ELSE LET h == Head(dss)
         IN CatDist(Tail(dss),
                TLCEval(Merge(Flatten([i \in 1..Len(acc) |->
                    [j \in 1..Len(h) |-> [o |-> Cat2(acc[i].o, h[j].o), p |-> Mul(acc[i].p, h[j].p)]]]))))

\* Ordered picks of k of the positions ps, each by the weights of what is left.
RECURSIVE Picks(_, _, _)
Picks(ws, ps, k) ==
    IF k = 0 THEN << [o |-> <<>>, p |-> <<1, 1>>] >>
    ELSE LET tot[i \in 0..Len(ps)] == IF i = 0 THEN 0 ELSE tot[i - 1] + ws[ps[i]]
             g == TLCEval(tot[Len(ps)])
         IN Flatten([i \in 1..Len(ps) |->
                IF ws[ps[i]] = 0 THEN <<>>
                ELSE LET sub == TLCEval(Picks(ws, Without(ps, i), k - 1))
                     IN [j \in 1..Len(sub) |-> [o |-> <<ps[i]>> \o sub[j].o, p |-> Mul(Rat(ws[ps[i]], g), sub[j].p)]]])

RECURSIVE Dist(_, _), DistEnv(_, _, _), DistText(_, _), DistVar(_, _), DistName(_, _)
DistText(txt, x) ==
    LET ds == Dist(ParseText(x.K, txt), x)
    IN IF x.ws THEN Merge([i \in 1..Len(ds) |-> [o |-> IF IsErr(ds[i].o) THEN ds[i].o ELSE Squash(ds[i].o), p |-> ds[i].p]])
       ELSE ds
\* Cyclical parts of a fresh run start at their first alternative.
FromFirst(c, x) == LET os == First(c, x) IN
                   IF Cardinality(os) = 1 THEN Sure(CHOOSE o \in os : TRUE)
                   ELSE LET q == SetToSeq(os) IN [i \in 1..Len(q) |-> [o |-> q[i], p |-> Unknown]]
DistEnv(cs, x, i) ==
    IF i > Len(cs)
    THEN LET parts == SelectSeq(cs, LAMBDA d : d.t # "set")
         IN CatDist([j \in 1..Len(parts) |-> TLCEval(Dist(parts[j], x))], Sure(""))
    ELSE IF cs[i].t # "set" THEN DistEnv(cs, x, i + 1)
    ELSE IF ~cs[i].ow /\ cs[i].n \in DOMAIN x.vars THEN DistEnv(cs, x, i + 1)
    ELSE IF ~cs[i].imm \/ cs[i].v.t = "lit" THEN DistEnv(cs, Bind(x, cs[i].n, cs[i].v), i + 1)
    ELSE LET ds == TLCEval(Dist(cs[i].v, x))
         IN Merge(Flatten([j \in 1..Len(ds) |->
                IF IsErr(ds[j].o) THEN <<ds[j]>>
                ELSE Scale(ds[j].p, DistEnv(cs, Bind(x, cs[i].n, Lit(ds[j].o)), i + 1))]))
DistVar(c, x) ==
    IF \E i \in 1..Len(c.opts) : c.opts[i].v.t = "bad" THEN Sure("!!Parse")
    ELSE IF Len(c.opts) = 1 /\ c.opts[1].v.t = "wc"
    THEN LET wc == c.opts[1].v
             ds == TLCEval(DistName(wc, x))
         IN Merge(Flatten([j \in 1..Len(ds) |->
                IF IsErr(ds[j].o) THEN <<ds[j]>>
                ELSE Scale(ds[j].p, DistVar(AsVariant(c, ds[j].o, x), BindAll(x, wc.vars)))]))
    ELSE LET lo == ClipLo(c) hi == ClipHi(c)
             all == [i \in 1..Len(c.opts) |-> i]
             ws == IF Len(c.opts) = 1 THEN <<1>> ELSE [i \in 1..Len(c.opts) |-> c.opts[i].w]
             sub == TLCEval([i \in 1..Len(c.opts) |-> Dist(c.opts[i].v, x)])
             live == Cardinality({i \in 1..Len(c.opts) : ws[i] > 0})
             Of(k) == IF k > live THEN Sure("!!ValueError") ELSE
                      LET ps == TLCEval(Picks(ws, all, k))
                      IN Flatten([q \in 1..Len(ps) |->
                            LET js == TLCEval(Joint([j \in 1..k |-> sub[ps[q].o[j]]]))
                            IN [r \in 1..Len(js) |-> [o |-> JoinTuple(js[r].o, c.sep), p |-> Mul(ps[q].p, js[r].p)]]])
         IN Merge(Flatten([k \in 1..(hi - lo + 1) |-> Scale(<<1, hi - lo + 1>>, Of(lo + k - 1))]))
DistName(wc, x) ==
    IF wc.path.t = "lit" THEN Sure(IF x.ws THEN Squash(wc.path.s) ELSE wc.path.s)
    ELSE LET os == FirstSample(wc.path, x)
         IN IF Cardinality(os) = 1 THEN Sure(CHOOSE o \in os : TRUE)
            ELSE LET ds == Dist(wc.path, x)
                 IN IF x.ws THEN Merge([i \in 1..Len(ds) |-> [ds[i] EXCEPT !.o = Squash(@)]]) ELSE ds
Dist(c, x0) ==
    LET x == [x0 EXCEPT !.m = Eff(c, x0)] IN
    IF x.m # "R" THEN FromFirst(c, x0)
    ELSE CASE c.t = "lit" -> Sure(c.s)
      [] c.t = "bad" -> Sure("!!Parse")
      [] c.t = "seq" -> DistEnv(c.xs, x, 1)
      [] c.t = "var" -> IF Len(c.opts) = 0 THEN Sure("!!RuntimeError") ELSE DistVar(c, x)
      [] c.t = "wc" ->
            LET ds == TLCEval(DistName(c, x)) IN
            Merge(Flatten([j \in 1..Len(ds) |->
                LET p == ds[j].o IN
                IF IsErr(p) THEN <<ds[j]>>
                ELSE LET y == BindAll(x, c.vars)
                         vs == TLCEval(Values(p, y))
                         even == \A i \in 1..Len(vs) : vs[i].w = vs[1].w
                         w == [i \in 1..Len(vs) |-> IF even THEN 1 ELSE vs[i].w]
                         tot[i \in 0..Len(vs)] == IF i = 0 THEN 0 ELSE tot[i - 1] + w[i]
                         g == TLCEval(tot[Len(vs)])
                     IN IF vs = <<>> THEN Scale(ds[j].p, Sure(ToWildcard(p, x.ww)))
                        ELSE Scale(ds[j].p, Merge(Flatten([i \in 1..Len(vs) |->
                                IF w[i] = 0 THEN <<>> ELSE Scale(Rat(w[i], g), DistText(vs[i].s, y))])))]))
      [] c.t = "get" ->
            LET v0 == Lookup(c, x)
                v == IF v0.t = "none" THEN x.unk ELSE v0
            IN IF v.t = "none" THEN Sure("!!KeyError")
               ELSE IF c.n \in x.being THEN Sure("!!RecursionError")
               ELSE Dist(v, [x EXCEPT !.being = @ \cup {c.n}])
      [] c.t = "wrap" ->
            LET js == Joint(<<TLCEval(Dist(c.w, x)), TLCEval(Dist(c.i, x))>>)
            IN Merge([r \in 1..Len(js) |->
                    [o |-> LET bad == FirstBad(js[r].o) IN
                           IF bad # "" THEN bad ELSE WrapText(js[r].o[1], js[r].o[2]),
                     p |-> js[r].p]])
      [] OTHER -> Sure("!!NotImplementedError")
DistOf(txt, x) == TLCEval(Merge(DistText(txt, x)))

(* ----------------- observed counts against a distribution -------------- *)
(* Bernstein: |k - Np| exceeds t with probability at most                  *)
(* 2 exp(-t^2 / (2 (Np(1-p) + t/3))); L = 25 bounds it by 3e-11.           *)
L == 25
Abs(a) == IF a < 0 THEN -a ELSE a
\* floor(N * a / b), without leaving 32 bits
MulDiv(N, a, b) == (N \div b) * a + ((N % b) * a) \div b
Plausible(k, N, p) ==
    IF p = Unknown THEN TRUE
    ELSE LET mean == MulDiv(N, p[1], p[2])                  \* floor of Np
             t == Max2(0, Abs(k - mean) - 1)
             v == MulDiv(mean + 1, p[2] - p[1], p[2]) + 1    \* at least Np(1-p)
         IN 3 * t * t <= 2 * L * (3 * v + t)
\* An outcome this likely cannot be missed in N draws: Np >= L.
MustOccur(N, p) == p # Unknown /\ MulDiv(N, p[1], p[2]) >= L
=============================================================================
