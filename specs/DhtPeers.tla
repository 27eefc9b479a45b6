------------------------------ MODULE DhtPeers ------------------------------
(* The table of the known DHT nodes, what is told to others about them, and  *)
(* the penalties of those which do not answer.                               *)
EXTENDS Integers, Sequences, FiniteSets

\* --- admission -----------------------------------------------------------
\* a description: [ver, sig, list, own, denied]: signed by its node, address
\* list present and valid now, of this node itself, denied by the filter
Acceptable(d) == d.sig /\ d.list /\ ~d.own /\ ~d.denied

\* known: node -> the highest version of its accepted descriptions
NoPeers == <<>>
Admit(known, p, d) ==
    IF ~Acceptable(d) THEN known
    ELSE IF p \in DOMAIN known THEN [known EXCEPT ![p] = IF d.ver > @ THEN d.ver ELSE @]
    ELSE [x \in DOMAIN known \cup {p} |-> IF x = p THEN d.ver ELSE known[x]]

\* what may be shown of a node: its newest description
MayShow(known, p, ver) == p \in DOMAIN known /\ ver = known[p]

\* --- the nearest nodes ---------------------------------------------------
\* bucket: node -> number of leading bits it shares with this node,
\* bits: the positions where the key differs from the identity of this node
Group(known, bucket, d) == {p \in DOMAIN known : bucket[p] = d}
Min(a, b) == IF a < b THEN a ELSE b
Visited(known, bucket, bits) == {p \in DOMAIN known : bucket[p] \in bits}
Before(known, bucket, bits, d) ==
    Cardinality({p \in Visited(known, bucket, bits) : bucket[p] < d})
\* ids: the nodes of the answer
Nearest(known, bucket, bits, k, ids) ==
    LET V == Visited(known, bucket, bits) IN
    /\ ids \subseteq V
    /\ Cardinality(ids) = Min(k, Cardinality(V))
    \* all of the closer ones come first
    /\ \A p \in ids : \A q \in V : bucket[q] < bucket[p] => q \in ids

Missed(known, k, ids) ==
    ids \subseteq DOMAIN known /\ Cardinality(ids) = Min(k, Cardinality(DOMAIN known))

\* --- penalties -----------------------------------------------------------
Points(pen, p) == IF p \in DOMAIN pen THEN pen[p] ELSE 0
Set(pen, p, n) == [x \in DOMAIN pen \cup {p} |-> IF x = p THEN n ELSE pen[x]]
Failed(pen, p) == Set(pen, p, Points(pen, p) + 2)
Good(pen, p) == Set(pen, p, IF Points(pen, p) > 0 THEN Points(pen, p) - 1 ELSE 0)
Bad(pen, p, threshold) == Points(pen, p) > threshold
\* an announcement of a known node is a good action
Announced(known, pen, p, d) ==
    IF Acceptable(d) /\ p \in DOMAIN known THEN Good(pen, p) ELSE pen
Asked(known, pen, threshold) == {p \in DOMAIN known : ~Bad(pen, p, threshold)}
=============================================================================
