------------------------------- MODULE Models -------------------------------
(***************************************************************************)
(* Which language model a magic generator uses: a generator uses the model *)
(* it was made for, or last switched to, whatever other generators do.     *)
(* The model loaded last is shared by those that ask for it next; a load   *)
(* that fails leaves nothing loaded and the generator as it was.           *)
(* State: gens, the model of each slot ("" if there is no generator);      *)
(* loaded, the model loaded last ("" if none).                             *)
(***************************************************************************)
EXTENDS Text
\* op: [op |-> "new"|"set", slot, m, ok] (ok: whether loading would succeed)
\*     [op |-> "use"|"name", slot]
Loads(st, op) == op.op \in {"new", "set"} /\ st.loaded # op.m
Fails(st, op) == Loads(st, op) /\ ~op.ok
After(st, op) ==
    IF op.op \notin {"new", "set"} THEN st
    ELSE IF Fails(st, op) THEN [st EXCEPT !.loaded = ""]
    ELSE [gens |-> [st.gens EXCEPT ![op.slot] = op.m], loaded |-> op.m]
\* What is seen: the model loaded in the step, and the result.
Seen(st, op) ==
    [loads |-> IF Loads(st, op) THEN <<op.m>> ELSE <<>>,
     res |-> IF op.op \in {"use", "name"} THEN st.gens[op.slot] ELSE IF Fails(st, op) THEN "!!load" ELSE "done"]
=============================================================================
