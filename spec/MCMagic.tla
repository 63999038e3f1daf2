------------------------------ MODULE MCMagic -------------------------------
(***************************************************************************)
(* The rounds as a transition system, for every script of good and bad     *)
(* answers: at most Max rounds after the first, only blocked positions are *)
(* asked again, a blocked text is returned only if every answer allowed    *)
(* was bad, and the end is what Magic computes.  Scripts are printed.      *)
(***************************************************************************)
EXTENDS Magic
CONSTANTS Positions, Length, MaxMax
Bits == [1..Length -> {0, 1}]
Text2(o, k, b) == "p" \o ToString(o) \o " " \o (IF b = 1 THEN "Bad" ELSE "ok") \o ToString(k)
VARIABLES script, max, cur, asked, round
vars == <<script, max, cur, asked, round>>
Answers == [o \in 1..Positions |-> [k \in 1..Length |-> Text2(o, k, script[o][k])]]
Texts == [o \in 1..Positions |-> "p" \o ToString(o)]
Origs == [o \in 1..Positions |-> o]
Words2 == <<"xyz", "BAD">>
Init ==
    /\ script \in [1..Positions -> Bits]
    /\ max \in 0..MaxMax
    /\ cur = [o \in 1..Positions |-> ""] /\ asked = [o \in 1..Positions |-> 0] /\ round = 0
Todo == IF round = 0 THEN 1..Positions ELSE {o \in 1..Positions : Blocked(cur[o], Words2)}
Next ==
    /\ round <= max /\ Todo # {}
    /\ round' = round + 1
    /\ asked' = [o \in 1..Positions |-> IF o \in Todo THEN asked[o] + 1 ELSE asked[o]]
    /\ cur' = [o \in 1..Positions |-> IF o \in Todo THEN CleanUp(Texts[o], AnswerOf(Answers, o, asked[o] + 1)) ELSE cur[o]]
    /\ UNCHANGED <<script, max>>
Spec == Init /\ [][Next]_vars
Done == ~(round <= max /\ Todo # {})
FirstGood(o) == {k \in 1..Length : script[o][k] = 0}
Bounded == \A o \in 1..Positions : asked[o] <= max + 1
AsComputed ==
    Done => LET m == Magic(Origs, Texts, Answers, Words2, max) IN m.cur = cur /\ m.asked = asked
Best ==   \* an acceptable answer within reach is the one returned, with its original
    Done => \A o \in 1..Positions :
        LET g == FirstGood(o)
            k == IF g = {} THEN 0 ELSE CHOOSE k \in g : \A j \in g : k <= j
        IN /\ StartsWith(cur[o], Texts[o])
           /\ IF k > 0 /\ k <= max + 1 THEN cur[o] = Text2(o, k, 0) /\ asked[o] = k
              ELSE Blocked(cur[o], Words2) /\ asked[o] = max + 1
Emit == round = 0 => PrintT(ToJson([script |-> script, max |-> max]))
Left == [][\A o \in 1..Positions : (round > 0 /\ ~Blocked(cur[o], Words2)) => cur'[o] = cur[o]]_vars
=============================================================================
