----------------------------- MODULE KeystoreMC -----------------------------
(* All sequences of additions; the complete ones are written as scripts.     *)
EXTENDS Keystore, TLC, Json, IOUtils

CONSTANT Depth
VARIABLE script

Init == KInit /\ script = <<>>
Next == /\ Len(script) < Depth
        /\ \E k \in Keys, t \in Tags :
             /\ Add(k, t, CanAdd(tagOf, k, t))
             /\ script' = Append(script, [key |-> k, tag |-> t])
Spec == Init /\ [][Next]_<<tagOf, script>>

StableMC == [][\A k \in Keys : tagOf[k] # 0 => tagOf'[k] = tagOf[k]]_<<tagOf, script>>

Emit == Len(script) = Depth /\ "SCRIPTS" \in DOMAIN IOEnv =>
          Serialize(ToJson([script |-> script]) \o "\n", IOEnv.SCRIPTS,
            [format |-> "TXT", charset |-> "UTF-8",
             openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
