----------------------------- MODULE StackTrace -----------------------------
\* Generators on top of one another.  s, lib, k, m, n: what the lowest one was
\* asked for; layers: from the lowest up, what each of the others does;
\* calls[i]: the lists the i-th generator from below returned, in order;
\* args[i]: what it was asked, as text; out: what the caller got for asked;
\* err: what it raised; base: what the lowest one raised.
EXTENDS Semantics, Judge
A == INSTANCE Attention
G == INSTANCE Magic
Aligned(a, b, Rel(_, _)) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Rel(a[i], b[i])
\* what one call of a layer returned, given what the one below returned to it
LayerOk(y, below, got) ==
    CASE y.t = "attention" -> Len(below) = 1 /\ Aligned(below[1], got, LAMBDA p, o : A!Outcome(p, o, y.lo, y.hi) = "ok")
      [] y.t = "magic"     -> Len(below) = 1 /\ Aligned(below[1], got, LAMBDA p, o : o = G!CleanUp(p, p \o y.more))
      [] y.t = "batched"   -> Len(below) = y.n /\ got = Flatten(below)
PerCall(y) == IF y.t = "batched" THEN y.n ELSE 1
LevelOk(e, i) ==
    LET y == e.layers[i]
        below == e.calls[i]
        here == e.calls[i + 1]
        q == PerCall(y)
    IN /\ Len(below) = q * Len(here)
       /\ \A j \in 1..Len(here) : LayerOk(y, SubSeq(below, (j - 1) * q + 1, j * q), here[j])
BaseOk(e, got) ==
    LET x == MkCtx(e.m, e.lib, e.k, FALSE)
        c == ParseText(x.K, e.s)
        ss == Sample(c, x, Max2(e.n, 1))
    IN e.m = "D" \/ TooLarge(c, x, 600) \/ Undecided(ss) \/ (IF e.n = 0 THEN got = <<>> ELSE \E s \in ss : Fits(got, s))
Verdict(e) ==
    IF \E i \in 1..Len(e.args) : \E j \in 1..Len(e.args[i]) : e.args[i][j] # e.asked THEN "arguments"
    \* what the lowest one raises is passed on
    ELSE IF e.err # e.base THEN "error"
    ELSE IF e.err # "" THEN "ok"
    ELSE IF e.calls[Len(e.calls)] # <<e.out>> THEN "result"
    ELSE IF \E i \in 1..Len(e.layers) : ~LevelOk(e, i) THEN "layer"
    ELSE IF e.m = "D" /\ \E i \in 1..Len(e.calls[1]) : e.calls[1][i] # [j \in 1..e.n |-> e.s] THEN "base"
    ELSE IF \E i \in 1..Len(e.calls[1]) : ~BaseOk(e, e.calls[1][i]) THEN "base"
    ELSE "ok"
Next == Consume(Verdict)
Spec == TraceInit /\ [][Next]_<<l, verdict>>
=============================================================================
