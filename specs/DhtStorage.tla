----------------------------- MODULE DhtStorage -----------------------------
(* The values a DHT node keeps for others: values signed by the owner of     *)
(* their key, and lists of members of an overlay.                            *)
EXTENDS Integers, FiniteSets

(* A value, as its sender made it:
     rule   "signed", "members" or another one
     ttl    when it expires
     val    its contents (signed values)
     name   length of the name in the key,  idx  index in the key
     owner  the key contains the identity of the public key beside it
     keysig, valsig  the description of the key and the value are signed by
            it (signed values), both are empty (lists of members)
     form   the public key is of the right kind, and the key is the one of
            the list of the members (lists of members), contents are readable
     nodes  entries of a list: [m, ver, ok], ok if it is signed by the member
            for this overlay                                               *)

Valid(nodes) == {n \in nodes : n.ok}
Names(nodes) == {n.m : n \in nodes}
Newest(nodes, m) ==
    (CHOOSE n \in nodes : n.m = m /\ \A k \in nodes : k.m = m => k.ver <= n.ver).ver
Table(nodes) == {<<m, Newest(nodes, m)>> : m \in Names(nodes)}
Entries(table) == {[m |-> e[1], ver |-> e[2], ok |-> TRUE] : e \in table}

Acceptable(v, now, maxName, maxIdx) ==
    /\ v.ttl > now
    /\ v.name <= maxName /\ v.idx <= maxIdx
    /\ v.owner /\ v.form /\ v.keysig /\ v.valsig
    /\ v.rule \in {"signed", "members"}
    /\ v.rule = "members" => Valid(v.nodes) # {}

Alive(s, k, now) == k \in DOMAIN s /\ s[k].ttl > now
Put(s, k, e) == [x \in DOMAIN s \cup {k} |-> IF x = k THEN e ELSE s[x]]

\* what is kept after a store
Stored(s, k, v, now, maxName, maxIdx) ==
    IF ~Acceptable(v, now, maxName, maxIdx) THEN s
    ELSE IF v.rule = "signed"
    THEN IF k \in DOMAIN s /\ s[k].ttl >= v.ttl THEN s
         ELSE Put(s, k, [ttl |-> v.ttl, val |-> v.val, nodes |-> {}])
    ELSE IF Alive(s, k, now) /\ s[k].ttl > v.ttl THEN s
         ELSE Put(s, k, [ttl |-> v.ttl, val |-> 0,
                nodes |-> Table(Valid(v.nodes) \cup
                           IF Alive(s, k, now) THEN Entries(s[k].nodes) ELSE {})])

\* what a lookup yields
Nothing == [ttl |-> 0, val |-> 0, nodes |-> {}]
Found(s, k, now) == IF Alive(s, k, now) THEN s[k] ELSE Nothing

\* number of entries in the storage: expired ones may stay for a while
Count(s, now, lag, n) ==
    /\ n >= Cardinality({k \in DOMAIN s : s[k].ttl > now})
    /\ n <= Cardinality({k \in DOMAIN s : s[k].ttl > now - lag})
=============================================================================
