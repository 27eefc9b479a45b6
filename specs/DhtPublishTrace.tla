-------------------------- MODULE DhtPublishTrace ---------------------------
EXTENDS DhtPublish, TraceKit

VARIABLES knows, up, holds, versions
vars == <<knows, up, holds, versions, l>>

Sets(s) == [i \in DOMAIN s |-> Range(s[i])]

TInit == knows = <<>> /\ up = {} /\ holds = <<>> /\ versions = <<>> /\ l = 1
TReset == /\ Is("Reset")
          /\ knows' = Sets(Ev.knows) /\ up' = 1..Ev.nodes /\ holds' = [i \in 1..Ev.nodes |-> <<>>]
          /\ versions' = [i \in 1..Ev.nodes |-> 0]

\* i is given the genuine description of j (or its own one), refused or not
TMeet == /\ Is("Meet")
         /\ Ev.i # Ev.j => Ev.ok
         /\ knows' = [knows EXCEPT ![Ev.i] = @ \cup ({Ev.j} \ {Ev.i})]
         /\ knows' = Sets(Ev.knows)
         /\ UNCHANGED <<up, holds, versions>>
TToggle == /\ Is("Toggle")
           /\ up' = IF Ev.up THEN up \cup {Ev.j} ELSE up \ {Ev.j}
           /\ UNCHANGED <<knows, holds, versions>>

Value == IF Ev.rule = "signed" THEN Signed(Ev.val, Ev.ttl, Ev.own) ELSE Entry(Ev.m, Ev.ver, Ev.ttl, Ev.own)

\* A publication at Ev.now which was over at Ev.after. res: "true", "false" -
\* of the check, if there was one
TPublish ==
    /\ Is("Publish")
    /\ Ev.ok = Accepts(Value, Ev.now)
    /\ holds' = Published(holds, knows, up, Ev.i, Ev.k, Value, Ev.local, Ev.now)
    /\ Learns(knows, Sets(Ev.knows), up, Ev.i)
    /\ knows' = Sets(Ev.knows)
    /\ Ev.res = "true" => Confirmed(holds', knows, up, Ev.i, Ev.k, Value, Ev.now)
    /\ Ev.res = "false" => ~Confirmed(holds', knows, up, Ev.i, Ev.k, Value, Ev.after)
    /\ UNCHANGED <<up, versions>>

\* a lookup, val = 0: it has found nothing
TFind ==
    /\ Is("Find")
    /\ IF Ev.val = 0 THEN Values(holds, knows, up, Ev.i, Ev.k, Ev.after) = {}
       \* (nodes which it has learnt about on the way may be asked too)
       ELSE Ev.val \in Values(holds, Sets(Ev.knows), up, Ev.i, Ev.k, Ev.now)
    /\ Learns(knows, Sets(Ev.knows), up, Ev.i)
    /\ knows' = Sets(Ev.knows)
    /\ UNCHANGED <<up, holds, versions>>

\* node i asks node j only
TFrom ==
    /\ Is("From")
    /\ IF Ev.val = 0 THEN Ev.j \notin up \/ Found(holds[Ev.j], Ev.k, Ev.after).val = 0
       ELSE Ev.j \in up /\ Ev.val = Found(holds[Ev.j], Ev.k, Ev.now).val
    /\ Learns(knows, Sets(Ev.knows), up, Ev.i)
    /\ knows' = Sets(Ev.knows)
    /\ UNCHANGED <<up, holds, versions>>

\* members of an overlay and their addresses
TMembers ==
    /\ Is("Members")
    /\ \A f \in Range(Ev.found) :
        /\ <<f[1], f[2]>> \in Members(holds, Sets(Ev.knows), up, Ev.i, Ev.k, Ev.now)
        /\ f[3] \in Values(holds, Sets(Ev.knows), up, Ev.i, f[1], Ev.now)
    /\ Ev.found = <<>> =>
        ~\E x \in Members(holds, knows, up, Ev.i, Ev.k, Ev.after) : Values(holds, knows, up, Ev.i, x[1], Ev.after) # {}
    /\ Learns(knows, Sets(Ev.knows), up, Ev.i)
    /\ knows' = Sets(Ev.knows)
    /\ UNCHANGED <<up, holds, versions>>

\* an outsider asks node j for a key
TLook ==
    /\ Is("Look")
    /\ LET f == Found(holds[Ev.j], Ev.k, Ev.now) IN
       /\ Ev.val = f.val
       /\ Range(Ev.nodes) = f.nodes
       /\ Ev.ttl = f.ttl
       /\ Ev.sound
    /\ UNCHANGED <<knows, up, holds, versions>>

\* node i tells node j about itself, and asks for others
TAnnounce ==
    /\ Is("Announce")
    /\ Ev.ok = (Ev.j \in up)
    /\ knows' = IF Ev.j \in up THEN [knows EXCEPT ![Ev.j] = @ \cup {Ev.i}] ELSE knows
    /\ knows' = Sets(Ev.knows)
    /\ Range(Ev.named) \subseteq knows'[Ev.j]
    /\ UNCHANGED <<up, holds, versions>>

\* node i asks the others for more nodes
TMore ==
    /\ Is("More")
    /\ Ev.ok
    /\ Learns(knows, Sets(Ev.knows), up, Ev.i)
    /\ Ev.n >= Cardinality(Range(Ev.knows[Ev.i]) \ knows[Ev.i])
    /\ knows' = Sets(Ev.knows)
    /\ UNCHANGED <<up, holds, versions>>

TPing == /\ Is("Ping") /\ Ev.ok = (Ev.j \in up)
         /\ UNCHANGED <<knows, up, holds, versions>>

\* an outsider asks node j for its description
TDescribe ==
    /\ Is("Describe")
    /\ Ev.sound
    /\ Ev.ver >= versions[Ev.j]
    /\ versions' = [versions EXCEPT ![Ev.j] = Ev.ver]
    /\ UNCHANGED <<knows, up, holds>>

TNext == TReset \/ TMeet \/ TToggle \/ TPublish \/ TFind \/ TFrom \/ TMembers \/ TLook
         \/ TAnnounce \/ TMore \/ TPing \/ TDescribe
TSpec == TInit /\ [][TNext]_vars
=============================================================================
