-------------------------- MODULE OverlayPeersTrace -------------------------
EXTENDS OverlayPeers, TraceKit

VARIABLE s
vars == <<s, l>>

\* What can be seen after every step: known and active peers, some of the
\* active ones in a list that is filled, and the neighbours (who gets a broadcast
\* to all of them); at most so many renewals of them have happened meanwhile
Seen(s0, s1) ==
    LET v == Ev.view
        neigh == Range(v.neigh)
    IN /\ Range(v.known) = s1.known
       /\ Range(v.active) = Active(s1)
       /\ IsInjective(v.neigh) /\ NeighboursFollow(s0, s1, neigh, v.renewals)
       /\ Range(v.some) \subseteq Active(s1) /\ Len(v.some) = Min(v.amount, Cardinality(Active(s1)))
       /\ v.counts = <<Cardinality(s1.known), Cardinality(neigh), Cardinality(DOMAIN s1.best)>>
       /\ s' = [s1 EXCEPT !.neigh = neigh]

TInit == s = Start({}, 0) /\ l = 1
TReset == Is("Reset") /\ s' = Start({}, 0)
\* a private overlay has its members from the beginning
TStart == Is("Start") /\ Seen(Start(Range(Ev.peers), Ev.cap), Start(Range(Ev.peers), Ev.cap))
TAdd == /\ Is("Add")
        /\ Ev.done /\ Ev.added = Admitted(Ev.list)
        /\ Seen(s, AdmitAll(s, Ev.list))
TRemove == /\ Is("Remove")
           /\ Ev.done = RemoveDone(s, Ev.p)
           /\ Seen(s, Remove(s, Ev.p))
\* a query for random members
TAsk == /\ Is("Ask")
        /\ Ev.answered /\ Ev.own /\ Exchanged(s, Ev.sent)
        /\ Seen(s, LearnAll(s, Ev.list))
\* our query. The answer has some entries, or is something else, or there is none
TExchange ==
    /\ Is("Exchange")
    /\ Ev.own /\ Exchanged(s, Ev.sent)
    /\ CASE Ev.answer = "nodes" ->
              /\ Ev.result = "nodes"
              /\ Range(Ev.found) = Found([s EXCEPT !.known = IF Ev.except = <<-1>> THEN @ ELSE Range(Ev.except)], Ev.list)
         [] Ev.answer = "none" -> Ev.result = "none"
         [] OTHER -> Ev.result = "error"
    /\ Seen(s, s)
TTake == /\ Is("Take")
         /\ IsInjective(Ev.list)
         /\ {e.p : e \in Range(Ev.list)} = DOMAIN s.received
         /\ Len(Ev.list) = Cardinality(DOMAIN s.received)
         /\ \A e \in Range(Ev.list) : e.v = s.received[e.p]
         /\ Seen(s, Taken(s))
TRenew == Is("Renew") /\ Seen(s, s)
\* the neighbours after each of many renewals
TRotation ==
    /\ Is("Rotation")
    /\ s.cap > 0 => UNION {Range(n) : n \in Range(Ev.neigh)} = Active(s)
    /\ \A n \in Range(Ev.neigh) : Enough(s, Range(n))
    /\ UNCHANGED s

TNext == TReset \/ TStart \/ TAdd \/ TRemove \/ TAsk \/ TExchange \/ TTake \/ TRenew \/ TRotation
TSpec == TInit /\ [][TNext]_vars
=============================================================================
