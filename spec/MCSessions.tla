----------------------------- MODULE MCSessions -----------------------------
(***************************************************************************)
(* Live sampling runs that share a parsed template, a context and a        *)
(* library.  The design: a run keeps its place in iterators of its own;    *)
(* templates, contexts and the library are only read; the manager          *)
(* remembers what it looked up.  Live of runs are opened, pulled from and *)
(* closed in every order; whatever the order, each run yields what it      *)
(* yields alone (its template's prompts by Semantics.tla).  The schedules  *)
(* are printed and replayed on the real code.                              *)
(***************************************************************************)
EXTENDS Semantics
CONSTANTS Depth, Live
K == DefaultSyntax
I(s) == [s |-> s, w |-> 1000]
Lib == << [n |-> "c", items |-> <<I("p"), I("{q|r}")>>] >>
\* what each slot samples: a cyclical, a combinatorial and a mixed template
What == << [t |-> "{@a|b|c}__c__", m |-> "Y"], [t |-> "{a|b}__c__", m |-> "C"], [t |-> "__c__{@a|b|c}", m |-> "C"] >>
Pulls == 4
Stream(tpl, m, items, n) ==   \* what an iterator over tpl yields, with what was looked up
    CHOOSE x \in Sample(tpl, MkCtx(m, << [n |-> "c", items |-> items] >>, K, FALSE), n) : TRUE
VARIABLES template,  \* the shared parsed template of each slot
          cache,     \* what the manager has looked up
          run,       \* slot -> Closed, or its template and its place
          got,       \* slot -> what the present run has yielded
          know,      \* constant: the templates, what they yield, computed once
          h
vars == <<template, cache, run, got, know, h>>
Closed == [tpl |-> NoneC, at |-> 0 - 1]
Knowledge ==
    LET ts == [s \in Live |-> ParseText(K, What[s].t)]
    IN [templates |-> ts,
        prefixes |-> [s \in Live |-> [n \in 1..Pulls |-> Stream(ts[s], What[s].m, Lib[1].items, n)]],
        alone |-> [s \in Live |-> CHOOSE x \in SampleText(What[s].t, MkCtx(What[s].m, Lib, K, FALSE), Pulls) : TRUE]]
Init == /\ know = Knowledge
        /\ template = know.templates
        /\ cache = [n \in {} |-> <<>>]
        /\ run = [s \in Live |-> Closed]
        /\ got = [s \in Live |-> <<>>]
        /\ h = <<>>
Looked == IF "c" \in DOMAIN cache THEN cache ELSE ("c" :> Lib[1].items) @@ cache
\* A run holds its own iterator, made from the shared template when it is
\* opened; it looks names up through the manager when it first needs them.
Open(s) ==
    /\ run[s] = Closed
    /\ run' = [run EXCEPT ![s] = [tpl |-> template[s], at |-> 0]]
    /\ got' = [got EXCEPT ![s] = <<>>]
    /\ h' = Append(h, [op |-> "open", s |-> s])
    /\ UNCHANGED <<template, cache, know>>
Pull(s) ==
    /\ run[s] # Closed /\ run[s].at < Pulls
    /\ cache' = Looked
    /\ LET stream == IF run[s].tpl = know.templates[s] /\ Looked["c"] = Lib[1].items
                     THEN know.prefixes[s][run[s].at + 1]   \* (computed once)
                     ELSE Stream(run[s].tpl, What[s].m, Looked["c"], run[s].at + 1)
       IN got' = [got EXCEPT ![s] = IF run[s].at < Len(stream) THEN Append(@, stream[run[s].at + 1]) ELSE @]
    /\ run' = [run EXCEPT ![s].at = @ + 1]
    /\ h' = Append(h, [op |-> "pull", s |-> s])
    /\ UNCHANGED <<template, know>>
Close(s) ==
    /\ run[s] # Closed /\ run[s].at > 0
    /\ run' = [run EXCEPT ![s] = Closed]
    /\ h' = Append(h, [op |-> "close", s |-> s])
    /\ UNCHANGED <<template, cache, got, know>>
Call ==   \* a generator is asked for a whole list in between
    /\ IF h = <<>> THEN TRUE ELSE h[Len(h)].op # "call"
    /\ cache' = Looked
    /\ h' = Append(h, [op |-> "call", s |-> 0])
    /\ UNCHANGED <<template, run, got, know>>
Next == /\ Len(h) < Depth
        /\ \/ \E s \in Live : Open(s) \/ Pull(s) \/ Close(s)
           \/ Call
Spec == Init /\ [][Next]_vars
Isolated == \A s \in Live : \A i \in 1..Len(got[s]) : got[s][i] = know.alone[s][i]
Untouched == template = know.templates
\* schedules in which at least two runs are alive and pulled from
Emit == (Len(h) = Depth /\ \E s, t \in Live : s # t /\ \E i, j, k \in 1..Len(h) :
            i < j /\ j < k /\ h[i] = [op |-> "pull", s |-> s] /\ h[j] = [op |-> "pull", s |-> t] /\ h[k] = [op |-> "pull", s |-> s])
        => PrintT(ToJson(h))
View == <<template, cache, run, got, h>>
=============================================================================
