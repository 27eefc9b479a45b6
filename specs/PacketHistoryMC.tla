-------------------------- MODULE PacketHistoryMC ---------------------------
(* All sequences of deliveries and resets over a few telling numbers.        *)
EXTENDS PacketHistory, Sequences, TLC, Json, IOUtils

CONSTANTS Numbers, Depth
VARIABLE script

Init == HInit /\ script = <<>>
Next == /\ Len(script) < Depth
        /\ \/ \E n \in Numbers, res \in BOOLEAN :
                /\ Deliver(1, n, res)
                /\ script' = Append(script, [n |-> n])
           \/ /\ ResetHistories({1})
              /\ script' = Append(script, [reset |-> TRUE])
Spec == Init /\ [][Next]_<<hvars, script>>
\* the scripts do not depend on the answers
View == <<script, acc, high>>

HighIsMax == \A h \in H : high[h] = IF acc[h] = {} THEN -1
                                    ELSE CHOOSE m \in acc[h] : \A n \in acc[h] : n <= m
\* accepted at most once between resets
Once == [][\A h \in H : \A n \in acc[h] : n \in acc'[h] \/ acc'[h] = {}]_<<hvars, script>>

Emit == Len(script) = Depth /\ "SCRIPTS" \in DOMAIN IOEnv =>
          Serialize(ToJson([script |-> script]) \o "\n", IOEnv.SCRIPTS,
            [format |-> "TXT", charset |-> "UTF-8",
             openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
