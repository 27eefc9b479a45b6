----------------------------- MODULE DhtPeersMC -----------------------------
EXTENDS DhtPeers, TLC, ScriptKit

CONSTANTS Peers, Vers, Threshold, Depth, What

VARIABLES known, pen, sent, script
vars == <<known, pen, sent, script>>
view == <<known, pen, sent, Len(script)>>

\* reasons to refuse a description
Reasons == {"no", "sig", "list", "own", "denied"}
Desc(ver, bad) == [ver |-> ver, sig |-> bad # "sig", list |-> bad # "list",
                   own |-> bad = "own", denied |-> bad = "denied"]

Init == known = NoPeers /\ pen = <<>> /\ sent = {} /\ script = <<>>

Announce == \E p \in Peers, v \in Vers, bad \in Reasons, how \in {"call", "query"} :
    /\ known' = Admit(known, p, Desc(v, bad))
    /\ pen' = Announced(known, pen, p, Desc(v, bad))
    /\ sent' = sent \cup {<<p, v, bad>>}
    /\ script' = Append(script, <<"announce", p, v, bad, how>>)
One == \E p \in Peers, ok \in BOOLEAN :
    /\ pen' = IF ok THEN Good(pen, p) ELSE Failed(pen, p)
    /\ script' = Append(script, <<"query", p, ok>>)
    /\ UNCHANGED <<known, sent>>
Lookup == \E ok \in BOOLEAN :
    /\ pen' = [p \in DOMAIN pen \cup Asked(known, pen, Threshold) |->
                 IF p \notin Asked(known, pen, Threshold) THEN pen[p]
                 ELSE IF ok THEN Points(Good(pen, p), p) ELSE Points(Failed(pen, p), p)]
    /\ script' = Append(script, <<"lookup", ok>>)
    /\ UNCHANGED <<known, sent>>
Next == /\ Len(script) < Depth
        /\ \/ "announce" \in What /\ Announce
           \/ "query" \in What /\ (One \/ Lookup)
Spec == Init /\ [][Next]_vars

\* only nodes with an acceptable description are known
Genuine == \A p \in DOMAIN known : <<p, known[p], "no">> \in sent
\* and the newest of them is kept
Newest == \A s \in sent : s[3] = "no" => s[1] \in DOMAIN known /\ known[s[1]] >= s[2]
\* descriptions do not become older
Monotone == [][\A p \in DOMAIN known : p \in DOMAIN known' /\ known'[p] >= known[p]]_vars
\* points are never negative, and enough good actions redeem every node
RECURSIVE After(_, _, _)
After(p, x, n) == IF n = 0 THEN p ELSE After(Good(p, x), x, n - 1)
Redeemable == \A p \in Peers :
    /\ Points(pen, p) >= 0
    /\ Bad(pen, p, Threshold) => ~Bad(After(pen, p, Points(pen, p) - Threshold), p, Threshold)
Skipped == \A p \in Asked(known, pen, Threshold) : ~Bad(pen, p, Threshold)
Emit == Len(script) = Depth => EmitScript(script)
=============================================================================
