-------------------------- MODULE OverlayPeersMC ----------------------------
EXTENDS OverlayPeers, TLC, Json, IOUtils

CONSTANTS Peers, Vers, Caps, Depth, Fixed
\* Fixed: to enumerate sequences of steps (of this length), whatever neighbours are chosen;
\* otherwise the script is only the last step
VARIABLES s, script, ever, gone
\* ever: <<peer, version>> of all admitted entries; gone: removed since the last admission
vars == <<s, script, ever, gone>>

Last == CHOOSE v \in Vers : \A w \in Vers : w <= v
Entries == [p : Peers, v : Vers, ok : {TRUE}, acc : {TRUE}]
             \cup {[p |-> 0, v |-> Last, ok |-> TRUE, acc |-> TRUE]}
             \cup {[p |-> 1, v |-> Last, ok |-> o, acc |-> ~o] : o \in BOOLEAN}

Init == /\ script = <<>> /\ ever = {} /\ gone = {}
        /\ \E c \in Caps : s = Start({}, c)

Choose(t, renewals) ==
    IF Fixed THEN s' = t
    ELSE \E n \in SUBSET Peers : NeighboursFollow(s, t, n, renewals) /\ s' = [t EXCEPT !.neigh = n]

Do(op) == script' = IF Fixed THEN Append(script, op) ELSE <<op.op>>
DoAdd == \E e \in Entries :
           /\ Do([op |-> "Add", list |-> <<e>>])
           /\ Choose(Admit(s, e), 0)
           /\ ever' = IF e.ok /\ e.acc /\ e.p # 0 THEN ever \cup {<<e.p, e.v>>} ELSE ever
           /\ gone' = IF e.ok /\ e.acc /\ e.p # 0 THEN gone \ {e.p} ELSE gone
DoRemove == \E p \in Peers :
           /\ Do([op |-> "Remove", p |-> p])
           /\ Choose(Remove(s, p), 0)
           /\ gone' = gone \cup {p}
           /\ UNCHANGED ever
DoLearn == \E e \in Entries :
           /\ Fixed => e.p = 1 /\ e.v = Last
           /\ Do([op |-> "Ask", list |-> <<e>>])
           /\ s' = Learn(s, e)
           /\ UNCHANGED <<ever, gone>>
DoRenew == /\ ~Fixed
           /\ Do([op |-> "Renew"])
           /\ Choose(s, 1)
           /\ UNCHANGED <<ever, gone>>

Next == (Fixed => Len(script) < Depth) /\ (DoAdd \/ DoRemove \/ DoLearn \/ DoRenew)
Spec == Init /\ [][Next]_vars

KnownIsEver == s.known = {e[1] : e \in ever}
ActiveIsNotGone == Active(s) = {e[1] : e \in ever} \ gone
BestIsNewest == /\ DOMAIN s.best = s.known
                /\ \A p \in s.known : /\ <<p, s.best[p]>> \in ever
                                      /\ \A e \in ever : e[1] = p => e[2] <= s.best[p]
ChosenAreActive == s.neigh \cap gone = {} /\ (Fixed \/ Enough(s, s.neigh))
NotOurselves == 0 \notin s.known /\ 0 \notin DOMAIN s.received
\* nobody is forgotten, new ones do not push anybody out
Stable == [][ /\ s.known \subseteq s'.known
              /\ script'[1] \in {"Add", "Ask"} => s.neigh \subseteq s'.neigh ]_vars
\* what was learnt is not used by itself
LearntOnly == [][script'[1] = "Ask" => Active(s') = Active(s) /\ s'.best = s.best]_vars

Emit == Fixed /\ Len(script) = Depth /\ "SCRIPTS" \in DOMAIN IOEnv =>
          Serialize(ToJson([script |-> <<[op |-> "New", cap |-> s.cap]>> \o script]) \o "\n", IOEnv.SCRIPTS,
            [format |-> "TXT", charset |-> "UTF-8",
             openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
