---------------------------- MODULE DhtPublishMC ----------------------------
EXTENDS DhtPublish, Sequences, TLC, ScriptKit

CONSTANTS Nodes, Depth, Bug

Owners == {1}
Overlay == 100
MembersOf == {1, 2}

VARIABLES knows, up, holds, now, n, due, last, script
vars == <<knows, up, holds, now, n, due, last, script>>
view == <<knows, up, holds, now, n, due, last, Len(script)>>

\* every node knows the next one
Init == /\ knows = [i \in Nodes |-> {i + 1} \cap Nodes]
        /\ up = Nodes /\ holds = [i \in Nodes |-> <<>>] /\ now = 1 /\ n = 0
        /\ due = {} /\ last = [i |-> 0] /\ script = <<>>

Sent(i, k, v, local) ==
    CASE Bug = "first" ->  \* only the first one gets it
            LET p == Partners(knows, up, i)
                one == {j \in p : \A x \in p : j <= x}
            IN Published(holds, [knows EXCEPT ![i] = one], up, i, k, v, local, now)
      [] Bug = "unsigned" -> \* the others refuse it
            Published(holds, knows, up, i, k, v, TRUE, now)
      [] OTHER -> Published(holds, knows, up, i, k, v, local, now)

\* what the nodes which have accepted a value owe to the publisher
Promise(i, k, v, local) ==
    IF ~Accepts(v, now) THEN {}
    ELSE {[j |-> j, k |-> k, v |-> v] : j \in {i} \cup IF local THEN {} ELSE Partners(knows, up, i)}

Did(i, k, v, local, holds2) ==
    last' = [i |-> i, ok |-> Accepts(v, now), v |-> v, k |-> k, found |-> {},
             confirmed |-> Accepts(v, now) /\ ~local /\ Confirmed(holds2, knows, up, i, k, v, now)]

Publish == \E i \in up, k \in Owners, ttl \in {0, 1, 3}, own \in BOOLEAN, local \in BOOLEAN :
    /\ n < 3
    /\ n' = n + 1
    /\ LET v == Signed(n + 1, now + ttl, own)
           h == Sent(i, k, v, local)
       IN /\ holds' = h
          /\ due' = due \cup Promise(i, k, v, local)
          /\ Did(i, k, v, local, h)
    /\ script' = Append(script, <<"publish", i, k, ttl, own, local>>)
    /\ UNCHANGED <<knows, up, now>>

Join == \E i \in up, m \in MembersOf, ver \in {1, 2}, ok \in BOOLEAN :
    /\ LET v == Entry(m, ver, now + 2, ok)
           h == Sent(i, Overlay, v, FALSE)
       IN /\ holds' = h
          /\ due' = due \cup Promise(i, Overlay, v, FALSE)
          /\ Did(i, Overlay, v, FALSE, h)
    /\ script' = Append(script, <<"join", i, m, ver, ok>>)
    /\ UNCHANGED <<knows, up, now, n>>

\* j is told the description of i
Announce == \E i, j \in Nodes : i # j /\ j \in knows[i] /\ i \notin knows[j] /\ {i, j} \subseteq up
    /\ knows' = [knows EXCEPT ![j] = @ \cup {i}]
    /\ script' = Append(script, <<"announce", i, j>>)
    /\ last' = [i |-> 0]
    /\ UNCHANGED <<up, holds, now, n, due>>
\* i is given the description of j
Meet == \E i, j \in Nodes : i # j /\ j \notin knows[i] /\ i \in up
    /\ knows' = [knows EXCEPT ![i] = @ \cup {j}]
    /\ script' = Append(script, <<"meet", i, j>>)
    /\ last' = [i |-> 0]
    /\ UNCHANGED <<up, holds, now, n, due>>
Toggle == \E j \in Nodes :
    /\ up' = IF j \in up THEN up \ {j} ELSE up \cup {j}
    /\ script' = Append(script, <<"toggle", j>>)
    /\ last' = [i |-> 0]
    /\ UNCHANGED <<knows, holds, now, n, due>>
Tick == /\ now < 4
        /\ now' = now + 1
        /\ script' = Append(script, <<"tick">>)
        /\ last' = [i |-> 0]
        /\ UNCHANGED <<knows, up, holds, n, due>>
Find == \E i \in up, k \in Owners :
    /\ last' = [i |-> i, k |-> k, found |-> Values(holds, knows, up, i, k, now)]
    /\ script' = Append(script, <<"find", i, k>>)
    /\ UNCHANGED <<knows, up, holds, now, n, due>>

Next == Len(script) < Depth /\ (Publish \/ Join \/ Announce \/ Meet \/ Toggle \/ Tick \/ Find)
Spec == Init /\ [][Next]_vars

\* whatever was published at a node and accepted there is held by the node
\* and by each one it reached, until it expires or something newer replaces it
Kept == \A d \in due : d.v.ttl > now =>
    LET f == Found(holds[d.j], d.k, now) IN
    /\ f.ttl >= d.v.ttl
    /\ d.v.rule = "signed" =>
         (f.val = d.v.val \/ \E o \in due : o.j = d.j /\ o.k = d.k /\ o.v.val = f.val /\ o.v.ttl >= d.v.ttl)
\* an entry is never replaced by an older one of its member
Merged == \A d \in due : d.v.rule = "members" /\ d.v.ttl > now =>
    \A e \in d.v.nodes : LET f == Found(holds[d.j], d.k, now).nodes IN
        \/ \E x \in f : x[1] = e.m /\ x[2] >= e.ver
        \* (the list which expires later does not contain what was refused before)
        \/ \E o \in due : o.j = d.j /\ o.k = d.k /\ o.v.ttl > d.v.ttl
\* nothing else is held
Genuine == \A j \in Nodes : \A k \in DOMAIN holds[j] :
    IF k = Overlay THEN \A x \in holds[j][k].nodes :
        \E d \in due : d.j = j /\ d.k = k /\ \E e \in d.v.nodes : x = <<e.m, e.ver>> /\ e.ok
    ELSE \E d \in due : d.j = j /\ d.k = k /\ d.v.val = holds[j][k].val /\ d.v.owner
\* a new value which is accepted and reaches a node that has nothing which
\* lasts as long is confirmed
Seen == ("ok" \in DOMAIN last) => (last.confirmed => last.ok)
\* found values were published, have not expired, and are found where they are
FoundOnly == ("found" \in DOMAIN last) => \A x \in last.found :
    \E d \in due : d.k = last.k /\ d.v.val = x /\ d.v.ttl > now /\ d.j \in knows[last.i]
Emit == Len(script) = Depth => EmitScript(script)
=============================================================================
