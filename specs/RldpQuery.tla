------------------------------ MODULE RldpQuery -----------------------------
(* R01. What the two ends of an RLDP query see.                              *)
(* A query: [to, answers: the application there answers, delay: ms it needs  *)
(* for that, calls, called: when, res].                                      *)
EXTENDS Integers, FiniteSets

CONSTANTS
    Retention,  \* ms for which a node knows finished queries
    Prompt      \* ms within which an answer is started in time

NewQuery(to, answers, delay) ==
    [to |-> to, answers |-> answers, delay |-> delay, calls |-> 0, called |-> 0, res |-> "no"]

(* The handler is called with the bytes of this query                        *)
MayCall(q, at, t) == /\ q.to = at
                     /\ q.calls = 0 \/ t - q.called > Retention
Called(q, t) == [q EXCEPT !.calls = @ + 1, !.called = t]

(* The query ends                                                            *)
MayEnd(q, res, whole, mild) ==
    /\ q.res = "no"
    /\ whole
    /\ res \in {"answer", "none", "error"}
    /\ res = "answer" => q.calls > 0 /\ q.answers
    \* on a network which only loses some packets an answer in time arrives
    /\ (mild /\ q.answers /\ q.delay <= Prompt) => res = "answer"
Ended(q, res) == [q EXCEPT !.res = res]
=============================================================================
