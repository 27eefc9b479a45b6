--------------------------- MODULE PacketHistory ----------------------------
(* A04. Abstract packet history: which sequence numbers may, must and must   *)
(* not be accepted. A history remembers everything accepted since its reset; *)
(* an implementation is free to refuse numbers older than the window.        *)
EXTENDS Integers, FiniteSets

CONSTANTS H,       \* the histories (one per peer and packet kind)
          Window   \* numbers behind the highest that must still be accepted

VARIABLES acc,     \* accepted numbers since the last reset
          high     \* the highest of them, -1 if none

hvars == <<acc, high>>

HInit == /\ acc = [h \in H |-> {}]
         /\ high = [h \in H |-> -1]

MustReject(h, n) == n \in acc[h]
MustAccept(h, n) == n \notin acc[h] /\ (n > high[h] \/ high[h] - n <= Window)

Deliver(h, n, res) ==
    /\ MustReject(h, n) => ~res
    /\ MustAccept(h, n) => res
    /\ acc' = [acc EXCEPT ![h] = IF res THEN @ \cup {n} ELSE @]
    /\ high' = [high EXCEPT ![h] = IF res /\ n > @ THEN n ELSE @]

\* Several threads try to deliver every number of S, each of which stays within
\* the window whatever the order is: exactly the new ones are accepted, once.
\* count[n]: how many threads were told that n is accepted
Race(h, S, count) ==
    /\ \A n \in S : \A m \in S \cup {high[h]} : m - n <= Window
    /\ \A n \in S : count[n] = IF n \in acc[h] THEN 0 ELSE 1
    /\ acc' = [acc EXCEPT ![h] = @ \cup S]
    /\ high' = [high EXCEPT ![h] =
                  CHOOSE m \in S \cup {@} : \A n \in S \cup {@} : n <= m]

ResetHistories(hs) ==
    /\ acc' = [h \in H |-> IF h \in hs THEN {} ELSE acc[h]]
    /\ high' = [h \in H |-> IF h \in hs THEN -1 ELSE high[h]]
=============================================================================
