----------------------------- MODULE MCManager ------------------------------
(***************************************************************************)
(* The manager's caching algorithm (a tree of files taken at the first use *)
(* after a clear, the lines of each file kept once read, the arranged      *)
(* values kept per pattern up to a limit), run against the observer of     *)
(* Manager.tla: every answer must be one the observer accepts, in every    *)
(* history of at most Depth operations.  Complete histories are printed    *)
(* and replayed on the real manager.                                       *)
(***************************************************************************)
EXTENDS Manager
CONSTANTS Depth, CacheLimit
WW == "__"
I(s) == [s |-> s, w |-> 1000]
\* Two text files, x and d/y, and the contents they can take.
Texts == << <<I("b"), I("a"), I("b")>>, <<I("c")>>, <<I("a"), I("c"), I("a")>> >>
File(f, n, k) == [f |-> f, colls |-> << [n |-> n, items |-> Texts[k]] >>]
Disk0 == << File("x.txt", "x", 1), File("d/y.txt", "d/y", 2) >>
Patterns == {"x", "*", "y"}
VARIABLES disk, tree, files, values, sort, dedup, shuf,   \* the implementation
          obs,                                            \* the observer
          h                                               \* the history
vars == <<disk, tree, files, values, sort, dedup, shuf, obs, h>>
NoTree == <<"none">>
Op(r) == h' = Append(h, r)
Room == Len(h) < Depth
Init ==
    /\ disk = Disk0 /\ tree = NoTree /\ files = <<>> /\ values = <<>>
    /\ sort = TRUE /\ dedup = TRUE /\ shuf = FALSE
    /\ obs = Fresh(Disk0) /\ h = <<>>

Write(f, n, k) ==
    /\ CollsOf(disk, f) # File(f, n, k).colls
    /\ disk' = Put(disk, f, File(f, n, k).colls)
    /\ obs' = Edited(obs, disk')
    /\ Op([op |-> "write", f |-> f, k |-> k])
    /\ UNCHANGED <<tree, files, values, sort, dedup, shuf>>
Remove(f) ==
    /\ HasFile(disk, f)
    /\ disk' = Del(disk, f)
    /\ obs' = Edited(obs, disk')
    /\ Op([op |-> "remove", f |-> f])
    /\ UNCHANGED <<tree, files, values, sort, dedup, shuf>>
ClearAll == tree' = NoTree /\ files' = <<>> /\ values' = <<>>
Clear ==
    /\ ClearAll /\ obs' = Cleared(obs, disk) /\ Op([op |-> "clear"])
    /\ UNCHANGED <<disk, sort, dedup, shuf>>
Sorting(b) ==
    /\ sort' = b /\ ClearAll /\ obs' = SetSort(obs, disk, b) /\ Op([op |-> "sort", b |-> b])
    /\ UNCHANGED <<disk, dedup, shuf>>
Dedup(b) ==
    /\ dedup' = b /\ ClearAll /\ obs' = SetDedup(obs, disk, b) /\ Op([op |-> "dedup", b |-> b])
    /\ UNCHANGED <<disk, sort, shuf>>
Shuffle(b) ==
    /\ shuf' = b /\ obs' = SetShuffle(obs, b) /\ Op([op |-> "shuffle", b |-> b])
    /\ UNCHANGED <<disk, tree, files, values, sort, dedup>>

\* files: sequence of [f, c]; values: sequence of [p, a].
Cached(p) == {i \in 1..Len(values) : values[i].p = p}
ReadOf(f) == {i \in 1..Len(files) : files[i].f = f}
\* The library as the manager sees it when it reads the files of T (paths).
Content(f) == IF ReadOf(f) # {} THEN files[CHOOSE i \in ReadOf(f) : TRUE].c ELSE CollsOf(disk, f)
NameOf == [f \in {"x.txt", "d/y.txt"} |-> IF f = "x.txt" THEN "x" ELSE "d/y"]
Look(p) ==
    LET t == IF tree = NoTree THEN [i \in 1..Len(disk) |-> disk[i].f] ELSE tree
        lib == Flatten([i \in 1..Len(t) |-> << [n |-> NameOf[t[i]], items |-> IF Content(t[i]) = <<>> THEN <<>> ELSE Content(t[i])[1].items] >>])
        direct == MatchIdx(lib, p, WW)
        D == DenotedIdx(lib, p, WW) \cup direct
        missing == \E i \in D : ReadOf(t[i]) = {} /\ ~HasFile(disk, t[i])
        fresh == Arrange(RawValues(lib, p, WW), dedup, sort)
        ans == IF Cached(p) # {} THEN values[CHOOSE i \in Cached(p) : TRUE].a ELSE fresh
        keep == IF Len(values) > CacheLimit THEN <<>> ELSE values
        new == {t[i] : i \in D} \ {files[i].f : i \in 1..Len(files)}
        RECURSIVE Add(_, _)
        Add(fs, S) == IF S = {} THEN fs ELSE LET f == CHOOSE f \in S : TRUE IN Add(Append(fs, [f |-> f, c |-> CollsOf(disk, f)]), S \ {f})
    IN /\ Op([op |-> "look", p |-> p])
       /\ tree' = IF Cached(p) # {} THEN tree ELSE t
       /\ IF Cached(p) = {} /\ missing
          THEN \* the lookup fails; the observer must allow that
               /\ Assert(Gone(obs.vers), <<"error not allowed", h>>)
               /\ UNCHANGED <<files, values, obs>>
          ELSE /\ values' = IF Cached(p) # {} THEN values ELSE Append(keep, [p |-> p, a |-> ans])
               /\ files' = IF Cached(p) # {} THEN files ELSE Add(files, new)
               /\ LET perms == IF shuf THEN {[i \in 1..Len(ans) |-> ans[q[i]]] : q \in Orders(1..Len(ans))} ELSE {ans}
                  IN \E a \in perms :
                       /\ Assert(AnswerOk(obs, p, WW, a), <<"answer not allowed", h', a>>)
                       /\ obs' = Answered(obs, p, a)
       /\ UNCHANGED <<disk, sort, dedup, shuf>>
Next ==
    /\ Room
    /\ \/ \E k \in 1..3 : Write("x.txt", "x", k)
       \/ Write("d/y.txt", "d/y", 3)
       \/ \E f \in {"x.txt", "d/y.txt"} : Remove(f)
       \/ Clear
       \/ \E b \in BOOLEAN : Sorting(b) \/ Dedup(b) \/ Shuffle(b)
       \/ \E p \in Patterns : Look(p)
Spec == Init /\ [][Next]_vars
\* Print the histories that end with a lookup (once, whatever the order of
\* a shuffled answer was).
Done == Len(h) = Depth /\ h[Depth].op = "look"
Emit == Done => PrintT(ToJson(h))
View == <<disk, tree, files, values, sort, dedup, shuf, h>>
=============================================================================
