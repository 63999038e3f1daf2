---------------------------- MODULE ManagerTrace ----------------------------
\* Whole histories: disk the files at first, h the operations, each with the
\* manager m it used and what it returned (err an error, "" if none).
EXTENDS Manager, Judge
WW == "__"
Strings(xs) == [i \in 1..Len(xs) |-> xs[i].s]
\* The values behind what an operation returned; prompts have no weights,
\* and a wildcard without values shows as itself.
ValuesOf(o) ==
    IF o.op = "prompt"
    THEN IF o.got = << [s |-> ToWildcard(o.p, WW), w |-> 1000] >> THEN <<>> ELSE o.got
    ELSE o.got
Skip == {"write", "remove"}
Step(disk, sts, o) ==
    LET st == sts[o.m] IN
    CASE o.op = "write" -> [disk |-> Put(disk, o.f, o.colls), sts |-> [i \in 1..Len(sts) |-> Edited(sts[i], Put(disk, o.f, o.colls))], bad |-> ""]
      [] o.op = "remove" -> [disk |-> Del(disk, o.f), sts |-> [i \in 1..Len(sts) |-> Edited(sts[i], Del(disk, o.f))], bad |-> ""]
      [] o.op = "through" ->
            IF o.err # "" THEN [disk |-> disk, sts |-> sts, bad |-> IF o.err \in {"!!KeyError"} THEN "" ELSE "write-refused"]
            ELSE LET d == Put(disk, o.f, o.colls)
                 IN [disk |-> d, sts |-> [i \in 1..Len(sts) |-> IF i = o.m THEN WrittenThrough(sts[i], d) ELSE Edited(sts[i], d)], bad |-> ""]
      [] o.op = "clear" -> [disk |-> disk, sts |-> [sts EXCEPT ![o.m] = Cleared(@, disk)], bad |-> ""]
      [] o.op = "sort" -> [disk |-> disk, sts |-> [sts EXCEPT ![o.m] = SetSort(@, disk, o.b)], bad |-> ""]
      [] o.op = "dedup" -> [disk |-> disk, sts |-> [sts EXCEPT ![o.m] = SetDedup(@, disk, o.b)], bad |-> ""]
      [] o.op = "shuffle" -> [disk |-> disk, sts |-> [sts EXCEPT ![o.m] = SetShuffle(@, o.b)], bad |-> ""]
      [] o.op = "flood" -> [disk |-> disk, sts |-> sts, bad |-> IF o.err = "" THEN "" ELSE "error"]
      [] o.op = "names" -> [disk |-> disk, sts |-> sts, bad |-> IF o.err # "" THEN "error" ELSE IF NamesOk(st, Range(o.names)) THEN "" ELSE "names"]
      [] OTHER ->
            LET ans == ValuesOf(o) IN
            IF o.err # "" THEN [disk |-> disk, sts |-> sts, bad |-> IF o.err = "!!FileNotFoundError" /\ Gone(st.vers) THEN "" ELSE "error"]
            ELSE [disk |-> disk, sts |-> [sts EXCEPT ![o.m] = Answered(@, o.p, ans)],
                  bad |-> IF AnswerOk(st, o.p, WW, ans) THEN ""
                          ELSE IF Known(st, o.p) = {} THEN "values" ELSE "changed-answer"]
RECURSIVE Fold(_, _, _, _)
Fold(disk, sts, h, i) ==
    IF i > Len(h) THEN "ok"
    ELSE LET r == Step(disk, sts, h[i]) IN
         IF r.bad # "" THEN r.bad ELSE Fold(r.disk, r.sts, h, i + 1)
Verdict(e) == Fold(e.disk, <<Fresh(e.disk), Fresh(e.disk)>>, e.h, 1)
Next == Consume(Verdict)
Spec == TraceInit /\ [][Next]_<<l, verdict>>
=============================================================================
