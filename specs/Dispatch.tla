------------------------------ MODULE Dispatch ------------------------------
(* A11. Subscribers of a node and what happens to messages and queries.      *)
(* Constructor -1 stands for a payload too short to have one, 0 for a ping.  *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES subs,     \* kind -> sequence of functions: constructor -> action
          running

Kinds == {"message", "query"}
DInit == subs = [k \in Kinds |-> <<>>] /\ running = FALSE

Subscribe(k, acts, ok) ==
    /\ ok = ~running
    /\ subs' = IF ok THEN [subs EXCEPT ![k] = Append(@, acts)] ELSE subs
    /\ UNCHANGED running

StartNode(ok) ==
    /\ ok = ~running
    /\ running' = TRUE
    /\ UNCHANGED subs

\* acts[c + 1]: the action for constructor c
Act(k, i, c) == subs[k][i][c + 1]

\* the subscriber at which the request stops, 0 if all pass it on
Stop(k, c) ==
    LET I == {i \in 1..Len(subs[k]) : Act(k, i, c) # "pass"} IN
    IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j

\* an item is <<kind, constructor, number>>
Calls(it) ==
    IF it[2] = -1 THEN <<>>
    ELSE LET s == Stop(it[1], it[2])
             n == IF s = 0 THEN Len(subs[it[1]]) ELSE s
         IN [i \in 1..n |-> <<it[1], i, it[2], it[3], TRUE>>]
Answers(it) ==
    IF it[1] # "query" \/ it[2] = -1 THEN <<>>
    ELSE LET s == Stop("query", it[2]) IN
         IF s = 0 THEN (IF it[2] = 0 THEN <<<<0, it[3]>>>> ELSE <<>>)
         ELSE IF Act("query", s, it[2]) = "take" THEN <<<<s, it[3]>>>> ELSE <<>>
\* no one takes it, or the one who should fails
Failed(it) ==
    \/ it[2] = -1
    \/ LET s == Stop(it[1], it[2]) IN
         IF s = 0 THEN ~(it[1] = "query" /\ it[2] = 0)
         ELSE Act(it[1], s, it[2]) = "fail"

RECURSIVE All(_, _)
All(Op(_), items) == IF items = <<>> THEN <<>> ELSE Op(Head(items)) \o All(Op, Tail(items))

\* what follows a failed request in the same packet may be ignored
Cut(items) ==
    LET F == {i \in 1..Len(items) : Failed(items[i])} IN
    IF F = {} THEN items ELSE SubSeq(items, 1, CHOOSE i \in F : \A j \in F : i <= j)

Packet(items, calls, answers) ==
    /\ running
    /\ \E its \in {items, Cut(items)} :
         /\ calls = All(Calls, its)
         \* answers leave in packets of their own, large ones in several
         /\ LET e == All(Answers, its) IN
            /\ Len(answers) = Len(e)
            /\ {answers[i] : i \in 1..Len(answers)} = {e[i] : i \in 1..Len(e)}
    /\ UNCHANGED <<subs, running>>
=============================================================================
