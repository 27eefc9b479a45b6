----------------------------- MODULE PeerTable ------------------------------
(* A08. Peers known to the identities of a node, and their channels.         *)
EXTENDS Integers, FiniteSets

CONSTANTS Locals, Peers
Own == 9      \* the address of the node itself
Self == 0     \* the adding identity itself as a peer

VARIABLES
    known,   \* address of each peer for each identity, 0 if it is not known
    chan     \* pairs with a usable channel

PInit == /\ known = [k \in Locals \X Peers |-> 0]
         /\ chan = {}

\* refused: set of <<context, peer, address>> the filter does not accept
Acceptable(p, a, ctx, refused) == p # Self /\ a # Own /\ <<ctx, p, a>> \notin refused

Add(l, p, a, ctx, refused, res) ==
    /\ res = IF ~Acceptable(p, a, ctx, refused)
             THEN (IF l \in Locals THEN "refused" ELSE res)
             ELSE IF l \notin Locals THEN "error" ELSE "added"
    /\ res = "added" => l \in Locals /\ Acceptable(p, a, ctx, refused)
    /\ known' = IF res = "added" THEN [known EXCEPT ![<<l, p>>] = a] ELSE known
    /\ UNCHANGED chan

Remove(l, p, res) ==
    /\ res = IF l \notin Locals THEN "error" ELSE IF known[<<l, p>>] # 0 THEN "removed" ELSE "unknown"
    /\ IF l \in Locals
       THEN /\ known' = [known EXCEPT ![<<l, p>>] = 0]
            /\ chan' = chan \ {<<l, p>>}
       ELSE UNCHANGED <<known, chan>>

(* A well signed packet from p for l; a: the address it announces, 0 if none *)
Packet(l, p, a, good, refused, delivered) ==
    IF l \notin Locals \/ (a # 0 /\ ~good) THEN
        ~delivered /\ UNCHANGED <<known, chan>>
    ELSE
        /\ known' = IF a # 0 /\ Acceptable(p, a, 1, refused) THEN [known EXCEPT ![<<l, p>>] = a] ELSE known
        /\ delivered = (known'[<<l, p>>] # 0)
        /\ UNCHANGED chan

\* A packet in the channel that p has established last
Channel(l, p, delivered) ==
    /\ delivered = (<<l, p>> \in chan)
    /\ UNCHANGED <<known, chan>>

Establish(l, p, confirmed) ==
    /\ known[<<l, p>>] # 0
    /\ confirmed
    /\ chan' = chan \cup {<<l, p>>}
    /\ UNCHANGED known

Send(l, p, ok, kind, to) ==
    LET can == l \in Locals /\ known[<<l, p>>] # 0 IN
    /\ ok = can
    /\ IF can THEN /\ to = known[<<l, p>>]
                   /\ kind = IF <<l, p>> \in chan THEN "channel" ELSE "handshake"
       ELSE kind = "none"
    /\ UNCHANGED <<known, chan>>

ChannelsOfKnown == \A k \in chan : known[k] # 0
=============================================================================
