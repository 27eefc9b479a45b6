----------------------------- MODULE DhtPublish -----------------------------
(* A network of DHT nodes which follow the rules: what is published at one   *)
(* of them, where it arrives, and what the others find.                      *)
(*   knows  node -> the DHT nodes it knows                                   *)
(*   up     the nodes which can be reached                                   *)
(*   holds  node -> what it stores (see DhtStorage)                          *)
EXTENDS DhtStorage

MaxName == 127
MaxIdx == 15

\* a value, signed by its owner; own: the key it is signed with is the one of the entry
Signed(val, ttl, own) ==
    [rule |-> "signed", ttl |-> ttl, val |-> val, name |-> 7, idx |-> 0, owner |-> own,
     keysig |-> TRUE, valsig |-> TRUE, form |-> TRUE, nodes |-> {}]
\* the list of one member of an overlay; ok: signed by the member for this overlay
Entry(m, ver, ttl, ok) ==
    [rule |-> "members", ttl |-> ttl, val |-> 0, name |-> 5, idx |-> 0, owner |-> TRUE,
     keysig |-> TRUE, valsig |-> TRUE, form |-> TRUE, nodes |-> {[m |-> m, ver |-> ver, ok |-> ok]}]

Accepts(v, now) == Acceptable(v, now, MaxName, MaxIdx)

\* the nodes which answer node i
Partners(knows, up, i) == knows[i] \cap up

\* after i has published v (local: only at the node itself)
Published(holds, knows, up, i, k, v, local, now) ==
    IF ~Accepts(v, now) THEN holds
    ELSE [j \in DOMAIN holds |->
            IF j = i \/ (~local /\ j \in Partners(knows, up, i))
            THEN Stored(holds[j], k, v, now, MaxName, MaxIdx) ELSE holds[j]]

\* node j hands it out
Has(h, k, v, now) ==
    IF v.rule = "signed" THEN Found(h, k, now).val = v.val
    ELSE \E n \in v.nodes : <<n.m, n.ver>> \in Found(h, k, now).nodes
\* another node hands it out, as the publisher sees
Confirmed(holds, knows, up, i, k, v, now) ==
    \E j \in Partners(knows, up, i) : Has(holds[j], k, v, now)

\* what a lookup of i may yield (0: nothing)
Values(holds, knows, up, i, k, now) ==
    {Found(holds[j], k, now).val : j \in Partners(knows, up, i)} \ {0}
Members(holds, knows, up, i, k, now) ==
    UNION {Found(holds[j], k, now).nodes : j \in Partners(knows, up, i)}

\* everything i can learn about: reached by way of nodes which are up
RECURSIVE Reach(_, _, _)
Reach(knows, up, s) ==
    LET t == s \cup UNION {knows[j] : j \in s \cap up} IN
    IF t = s THEN s ELSE Reach(knows, up, t)
\* what i may know after it has asked others
Learns(before, after, up, i) ==
    /\ before[i] \subseteq after[i]
    /\ after[i] \subseteq Reach(before, up, before[i]) \ {i}
    /\ \A j \in DOMAIN before \ {i} : after[j] = before[j]
=============================================================================
