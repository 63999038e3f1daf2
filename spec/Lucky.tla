------------------------------- MODULE Lucky --------------------------------
(***************************************************************************)
(* Generation from a search service: one query, made from the inner        *)
(* generator's prompt, and n prompts drawn from the answer; anything that  *)
(* goes wrong on the way is the library's own error.                       *)
(* transport: "ok", or how the request fails.  shape: "prompts", or how    *)
(* the answer is malformed; "mixed" if only some entries are.  prompts:    *)
(* those in the answer.                                                    *)
(***************************************************************************)
EXTENDS Text
Transports == {"ok", "no-module", "refused", "status", "not-json"}
Malformed == {"no-images", "null", "number", "list", "text", "none-images", "text-images", "map-images", "no-prompt", "text-entries", "none-entries"}
Usable(transport, shape, prompts) == transport = "ok" /\ shape = "prompts" /\ prompts # <<>>
Failure == "!!GeneratorException"
Numeral(q) == q # "" /\ Len(q) <= 8 /\ (\A i \in 1..Len(q) : At(q, i) \in Digits) /\ Num(q) <= 10000000
QueryOk(inner, q) == IF Strip(inner) = "" THEN Numeral(q) ELSE q = inner
\* Whether the outcome (a list of prompts, or an error's name) is right.
OutcomeOk(transport, shape, prompts, n, err, out) ==
    LET given == err = "" /\ Len(out) = n /\ \A i \in 1..Len(out) : \E j \in 1..Len(prompts) : prompts[j] = out[i]
        failed == err = Failure
    IN IF Usable(transport, shape, prompts) THEN given
       ELSE IF transport = "ok" /\ (shape = "mixed" \/ n = 0) THEN given \/ failed
       ELSE failed
=============================================================================
