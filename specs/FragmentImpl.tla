---------------------------- MODULE FragmentImpl ----------------------------
(* A05. The lock-free bookkeeping of a transfer (Transfer::add_part), one    *)
(* action per atomic operation, threads adding the parts of one message.     *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Total,     \* number of parts, each of length 1
          Jobs,      \* sequence: the part added by each thread
          Double     \* TRUE: the counter is doubled by the one who completes

JobsDef == <<1, 2, 3, 1, 2>>

VARIABLES parts, received, pc, result, local

Threads == DOMAIN Jobs
vars == <<parts, received, pc, result, local>>

Init == /\ parts = {} /\ received = 0
        /\ pc = [t \in Threads |-> "insert"]
        /\ result = [t \in Threads |-> "?"]
        /\ local = [t \in Threads |-> 0]

Insert(t) == /\ pc[t] = "insert"
             /\ parts' = parts \cup {Jobs[t]}
             /\ IF Jobs[t] \in parts
                THEN pc' = [pc EXCEPT ![t] = "done"] /\ result' = [result EXCEPT ![t] = "dup"]
                ELSE pc' = [pc EXCEPT ![t] = "add"] /\ UNCHANGED result
             /\ UNCHANGED <<received, local>>
Add(t) == /\ pc[t] = "add"
          /\ received' = received + 1
          /\ pc' = [pc EXCEPT ![t] = "cas"]
          /\ UNCHANGED <<parts, result, local>>
Cas(t) == /\ pc[t] = "cas"
          /\ local' = [local EXCEPT ![t] = received]
          /\ received' = IF Double /\ received = Total THEN 2 * Total ELSE received
          /\ pc' = [pc EXCEPT ![t] = "done"]
          /\ result' = [result EXCEPT ![t] =
                IF received < Total THEN "less"
                ELSE IF received > Total THEN "error"
                ELSE IF Cardinality(parts) = Total THEN "deliver" ELSE "missing"]
          /\ UNCHANGED parts
Next == \E t \in Threads : Insert(t) \/ Add(t) \/ Cas(t)
Spec == Init /\ [][Next]_vars

AllDone == \A t \in Threads : pc[t] = "done"
Delivered == Cardinality({t \in Threads : result[t] = "deliver"})
AtMostOnce == Delivered <= 1
ExactlyOnce == AllDone /\ {Jobs[t] : t \in Threads} = 1..Total => Delivered = 1
=============================================================================
