------------------------------ MODULE Manager -------------------------------
(***************************************************************************)
(* What the users of wildcard managers may observe, over histories of      *)
(* file-system edits, setting changes, cache clears and lookups.           *)
(*                                                                         *)
(* A disk is a sequence of files [f |-> path, colls |-> sequence of        *)
(* collections].  The state of one manager as far as its users know:       *)
(*   vers  the disks there have been since the last clearing event;        *)
(*   seen  pattern -> answer given since then, [a |-> values,              *)
(*         exact |-> whether the order was binding];                       *)
(*   sort, dedup, shuf  its settings.                                      *)
(***************************************************************************)
EXTENDS Wildcards

(* ------------------------------- disks --------------------------------- *)
Put(disk, f, colls) ==
    IF \E i \in 1..Len(disk) : disk[i].f = f
    THEN [i \in 1..Len(disk) |-> IF disk[i].f = f THEN [f |-> f, colls |-> colls] ELSE disk[i]]
    ELSE Append(disk, [f |-> f, colls |-> colls])
Del(disk, f) == SelectSeq(disk, LAMBDA x : x.f # f)
HasFile(disk, f) == \E i \in 1..Len(disk) : disk[i].f = f
CollsOf(disk, f) == IF HasFile(disk, f) THEN (CHOOSE x \in Range(disk) : x.f = f).colls ELSE <<>>

Paths(vers) == {x.f : x \in UNION {Range(vers[i]) : i \in 1..Len(vers)}}
Versions(vers, f) == {CollsOf(vers[i], f) : i \in 1..Len(vers)}

\* All libraries a manager may know: every file as it was in some version.
RECURSIVE Libs(_, _)
Libs(vers, fs) ==
    IF fs = {} THEN {<<>>}
    ELSE LET f == CHOOSE f \in fs : TRUE
         IN {c \o lib : c \in Versions(vers, f), lib \in Libs(vers, fs \ {f})}

Orders(S) ==
    LET RECURSIVE P(_)
        P(T) == IF T = {} THEN {<<>>} ELSE UNION {{<<i>> \o p : p \in P(T \ {i})} : i \in T}
    IN P(S)
Bag(xs) == [x \in Range(xs) |-> Cardinality({i \in 1..Len(xs) : xs[i] = x})]

\* ans is a fresh answer of a manager to pattern p.
Possible(st, p, ww, ans, exact) ==
    \E lib \in Libs(st.vers, Paths(st.vers)) :
        LET I == DenotedIdx(lib, p, ww)
            A(o) == Arrange(Flatten([k \in 1..Len(o) |-> lib[o[k]].items]), st.dedup, st.sort)
        IN IF exact THEN \E o \in Orders(I) : ans = A(o)
           ELSE \E o \in Orders(I) : Bag(ans) = Bag(A(o))

Gone(vers) == \E f \in Paths(vers) : \E i \in 1..Len(vers) : ~HasFile(vers[i], f)

(* ---------------------------- transitions ------------------------------ *)
Fresh(disk) == [vers |-> <<disk>>, seen |-> <<>>, sort |-> TRUE, dedup |-> TRUE, shuf |-> FALSE]
\* seen is a sequence of [p, a, exact]; the newest entry of a pattern counts.
Known(st, p) == {i \in 1..Len(st.seen) : st.seen[i].p = p}
Last(S) == CHOOSE i \in S : \A j \in S : j <= i

Edited(st, disk) == [st EXCEPT !.vers = IF disk \in Range(@) THEN @ ELSE Append(@, disk)]
Cleared(st, disk) == [st EXCEPT !.vers = <<disk>>, !.seen = <<>>]
\* Settings that arrange values start afresh.  Setting one to what it is
\* already may or may not.
SetSort(st, disk, b) == IF st.sort = b THEN [st EXCEPT !.seen = <<>>] ELSE [Cleared(st, disk) EXCEPT !.sort = b]
SetDedup(st, disk, b) == IF st.dedup = b THEN [st EXCEPT !.seen = <<>>] ELSE [Cleared(st, disk) EXCEPT !.dedup = b]
SetShuffle(st, b) == [st EXCEPT !.shuf = b]
\* Text written through a collection may show at once.
WrittenThrough(st, disk) == [Edited(st, disk) EXCEPT !.seen = <<>>]

\* Is ans a correct answer to looking up p?
AnswerOk(st, p, ww, ans) ==
    LET K == Known(st, p) IN
    IF K = {} THEN Possible(st, p, ww, ans, ~st.shuf)
    ELSE LET e == st.seen[Last(K)] IN
         IF st.shuf THEN Bag(ans) = Bag(e.a)
         ELSE IF e.exact THEN ans = e.a
         ELSE Bag(ans) = Bag(e.a) /\ Possible(st, p, ww, ans, TRUE)
Answered(st, p, ans) ==
    LET K == Known(st, p)
        old == IF K = {} THEN [p |-> p, a |-> ans, exact |-> FALSE] ELSE st.seen[Last(K)]
        new == IF st.shuf THEN old ELSE [p |-> p, a |-> ans, exact |-> TRUE]
    IN [st EXCEPT !.seen = Append(SelectSeq(@, LAMBDA x : x.p # p), new)]

\* The names a manager may list: of every file, those of some version.
NamesOk(st, names) ==
    \E lib \in Libs(st.vers, Paths(st.vers)) : names = {lib[i].n : i \in 1..Len(lib)}
=============================================================================
