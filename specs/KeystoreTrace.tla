--------------------------- MODULE KeystoreTrace ----------------------------
EXTENDS Keystore, TraceKit

TInit == KInit /\ l = 1

Matches == \* every lookup, after the step
    /\ \A t \in Tags : Ev.byTag[t] =
         IF \A k \in Keys : tagOf'[k] # t THEN 0 ELSE CHOOSE k \in Keys : tagOf'[k] = t
    /\ \A k \in Keys : Ev.byId[k] = IF tagOf'[k] = 0 THEN 0 ELSE k
    /\ Range(Ev.listed) = {k \in Keys : tagOf'[k] # 0}
    /\ IsInjective(Ev.listed)

TReset == Is("Reset") /\ tagOf' = [k \in Keys |-> 0]
TAdd == /\ Is("Add")
        /\ Add(Ev.key, Ev.tag, Ev.ok)
        /\ Ev.ok => Ev.res = Ev.key
        /\ Matches
TBuild == /\ Is("Build")
          /\ LET r == AddAll([k \in Keys |-> 0], Ev.ops) IN
             /\ Ev.ok = r.ok
             /\ IF r.ok THEN tagOf' = r.tagOf /\ Matches ELSE tagOf' = tagOf

TNext == TReset \/ TAdd \/ TBuild
TSpec == TInit /\ [][TNext]_<<tagOf, l>>
=============================================================================
