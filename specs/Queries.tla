------------------------------ MODULE Queries -------------------------------
(* A06. Pending queries of a node. Times are milliseconds. A result is the   *)
(* number of the answer, -1 for none, -2 for an error.                       *)
EXTENDS Integers, Sequences, FiniteSets

None == -1
Error == -2

VARIABLE pending  \* query -> [deadline, typed]

QInit == pending = <<>>

Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]

\* the answers of a list of <<query, answer>> for q
RECURSIVE First(_, _)
First(list, q) == IF list = <<>> THEN <<>>
                  ELSE IF Head(list)[1] = q THEN <<Head(list)[2]>> ELSE First(Tail(list), q)

\* answers that a typed query cannot parse
Garbage(a) == a >= 100
Result(q, a) == IF pending[q].typed /\ Garbage(a) THEN Error ELSE a

(* In the interval [t0, t] the answers of the list arrive (at its beginning) *)
(* and out[q] are the results of the queries that end. Slack: how exactly    *)
(* the timer works.                                                          *)
Slack == 2
Step(list, t0, t, out) ==
    /\ DOMAIN out \subseteq DOMAIN pending
    /\ \A q \in DOMAIN pending :
         LET f == First(list, q)
             d == pending[q].deadline
             ended == q \in DOMAIN out
         IN
         IF f # <<>> THEN
             /\ ended
             /\ \/ out[q] = Result(q, f[1])
                \/ d <= t0 + Slack /\ out[q] = None
         ELSE IF d <= t - Slack THEN ended /\ out[q] = None
         ELSE IF d > t + Slack THEN ~ended
         ELSE ended => out[q] = None
    /\ pending' = Without(pending, DOMAIN out)

Start(q, deadline, typed) ==
    /\ q \notin DOMAIN pending
    /\ pending' = [x \in DOMAIN pending \cup {q} |->
                     IF x = q THEN [deadline |-> deadline, typed |-> typed] ELSE pending[x]]

Cancel(q) == pending' = Without(pending, {q})
=============================================================================
