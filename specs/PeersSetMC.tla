----------------------------- MODULE PeersSetMC -----------------------------
EXTENDS PeersSet, TLC, Json, IOUtils

CONSTANTS Peers, Caps, Depth
VARIABLES set, script

Init == /\ script = <<>>
        /\ \E c \in Caps : set = Empty(c)
Op == \/ \E p \in Peers :
           /\ set' = Insert(set, p)
           /\ script' = Append(script, [op |-> "Insert", s |-> 1, p |-> p])
      \/ \E p \in Peers :
           /\ set' = Remove(set, p)
           /\ script' = Append(script, [op |-> "Remove", s |-> 1, p |-> p])
Next == Len(script) < Depth /\ Op
Spec == Init /\ [][Next]_<<set, script>>

Inv == Bounded(set)
\* FIFO: a step that evicts removes exactly the oldest member
EvictsOldest == [][ LET gone == Members(set) \ Members(set') IN
                      gone # {} => 
                          IF script'[Len(script')].op = "Remove" THEN gone = {script'[Len(script')].p}
                          ELSE gone = {Head(set.order)} /\ Len(set.order) = set.cap
                  ]_<<set, script>>
VersionCounts == [][ (set'.version # set.version) <=> (Members(set') # Members(set)) ]_<<set, script>>

Emit == Len(script) = Depth /\ "SCRIPTS" \in DOMAIN IOEnv =>
          Serialize(ToJson([script |-> <<[op |-> "New", cap |-> set.cap]>> \o script]) \o "\n", IOEnv.SCRIPTS,
            [format |-> "TXT", charset |-> "UTF-8",
             openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
