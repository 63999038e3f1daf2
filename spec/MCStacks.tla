------------------------------ MODULE MCStacks ------------------------------
(***************************************************************************)
(* How many times each generator of a stack is called, and how many        *)
(* prompts come out, when a call is passed down layer by layer: a batched  *)
(* layer calls the one below once per batch, every other layer once.  The  *)
(* stacks are printed and built from the real generators.                  *)
(***************************************************************************)
EXTENDS Text
CONSTANTS Height, Batches, Per
Layers == {"attention", "batched", "magic"}
VARIABLES base, stack, pending, calls, back
vars == <<base, stack, pending, calls, back>>
\* pending: levels at which a call is under way, the deepest last, each with
\* the calls it still has to make and the prompts it has collected
Init ==
    /\ base \in {"C", "R", "D"}
    /\ stack \in UNION {[1..h -> Layers] : h \in 0..Height}
    /\ pending = <<>> /\ calls = [i \in 0..Len(stack) |-> 0] /\ back = 0 - 1
Todo(i) == IF i = 0 THEN 0 ELSE IF stack[i] = "batched" THEN Batches ELSE 1
Enter(i) == /\ calls' = [calls EXCEPT ![i] = @ + 1]
            /\ pending' = Append(pending, [at |-> i, todo |-> Todo(i), got |-> IF i = 0 THEN Per ELSE 0])
Ask == back = 0 - 1 /\ pending = <<>> /\ Enter(Len(stack)) /\ UNCHANGED <<base, stack, back>>
Deepest == pending[Len(pending)]
Down ==
    /\ pending # <<>> /\ Deepest.todo > 0
    /\ LET i == Deepest.at IN
       /\ calls' = [calls EXCEPT ![i - 1] = @ + 1]
       /\ pending' = Append([pending EXCEPT ![Len(pending)].todo = @ - 1],
                            [at |-> i - 1, todo |-> Todo(i - 1), got |-> IF i = 1 THEN Per ELSE 0])
    /\ UNCHANGED <<base, stack, back>>
Up ==
    /\ pending # <<>> /\ Deepest.todo = 0
    /\ IF Len(pending) = 1 THEN back' = Deepest.got /\ pending' = <<>>
       ELSE /\ pending' = [SubSeq(pending, 1, Len(pending) - 1) EXCEPT ![Len(pending) - 1].got = @ + Deepest.got]
            /\ back' = back
    /\ UNCHANGED <<base, stack, calls>>
Next == Ask \/ Down \/ Up
Spec == Init /\ [][Next]_vars
\* calls of level i: the product of the batch counts above it
RECURSIVE Times(_)
Times(i) == IF i > Len(stack) THEN 1 ELSE Todo(i) * Times(i + 1)
Finished == back >= 0
Counted == Finished => /\ back = Per * Times(1)
                       /\ \A i \in 0..Len(stack) : calls[i] = Times(i + 1)
Report == ~Finished \/ PrintT(ToJson([base |-> base, layers |-> stack]))
=============================================================================
