------------------------------ MODULE MCLucky -------------------------------
(***************************************************************************)
(* The generator as a transition system over every transport, shape,       *)
(* number of prompts and draw.  The cases are printed and replayed.        *)
(***************************************************************************)
EXTENDS Lucky
CONSTANTS MaxN, MaxPrompts
VARIABLES case, pc, sent, got, err
vars == <<case, pc, sent, got, err>>
PromptSeqs == {[i \in 1..k |-> "p" \o ToString(i)] : k \in 0..MaxPrompts}
Init ==
    /\ case \in ([transport : Transports, shape : {"prompts"}, prompts : PromptSeqs, n : 0..MaxN, inner : {"", " ", "cat", "a&b=c #d"}]
             \cup [transport : {"ok"}, shape : Malformed \cup {"mixed"}, prompts : {<<"p1", "p2">>}, n : 0..MaxN, inner : {"", "cat"}])
    /\ pc = "query" /\ sent = <<>> /\ got = <<>> /\ err = ""
Query ==
    /\ pc = "query"
    /\ IF case.transport = "no-module" THEN sent' = sent
       ELSE \E q \in (IF Strip(case.inner) = "" THEN {"0", "10000000"} ELSE {case.inner}) : sent' = Append(sent, q)
    /\ IF case.transport # "ok" THEN err' = Failure /\ pc' = "done" ELSE err' = err /\ pc' = "draw"
    /\ UNCHANGED <<case, got>>
Draw ==
    /\ pc = "draw"
    /\ IF case.shape \in Malformed THEN pc' = "done" /\ err' = Failure /\ got' = <<>>
       ELSE IF Len(got) = case.n THEN pc' = "done" /\ UNCHANGED <<got, err>>
       ELSE IF case.prompts = <<>> THEN pc' = "done" /\ err' = Failure /\ got' = <<>>
       ELSE \/ \E j \in 1..Len(case.prompts) : got' = Append(got, case.prompts[j]) /\ UNCHANGED <<pc, err>>
            \/ case.shape = "mixed" /\ pc' = "done" /\ err' = Failure /\ got' = <<>>
    /\ UNCHANGED <<case, sent>>
Next == Query \/ Draw
Spec == Init /\ [][Next]_vars
Right ==
    pc = "done" =>
        /\ OutcomeOk(case.transport, case.shape, case.prompts, case.n, err, got)
        /\ (case.transport # "no-module" => Len(sent) = 1 /\ QueryOk(case.inner, sent[1]))
        /\ ~OutcomeOk(case.transport, case.shape, case.prompts, case.n, "!!KeyError", <<>>)
        /\ (err = "" => ~OutcomeOk(case.transport, case.shape, case.prompts, case.n, "", Append(got, "p1")))
Emit == pc = "query" => PrintT(ToJson(case))
=============================================================================
