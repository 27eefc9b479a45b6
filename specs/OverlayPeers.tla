---------------------------- MODULE OverlayPeers ----------------------------
(* Members of an overlay as one of them sees them: which of the peers it has *)
(* ever admitted, which of those were removed since, whom it has chosen as   *)
(* neighbours, and the signed entries of the members it passes on.           *)
EXTENDS Integers, Sequences, FiniteSets

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Rng(f) == {f[i] : i \in DOMAIN f}

\* known: ever admitted. removed: not to be used any more.
\* best: the version of the entry kept for a member, received: those of
\* entries which were learnt from others. cap: how many neighbours
Start(peers, cap) ==
    [known |-> peers, removed |-> {}, neigh |-> {}, cap |-> cap, best |-> <<>>, received |-> <<>>]

Active(s) == s.known \ s.removed

\* An entry [p: whose (0: our own), v: version, ok: signed by p for this overlay,
\* acc: the transport accepts the address]
Admissible(e) == e.ok /\ e.acc /\ e.p # 0

Keep(versions, e) ==
    [p \in DOMAIN versions \cup {e.p} |->
        IF p # e.p THEN versions[p]
        ELSE IF p \in DOMAIN versions THEN Max(versions[p], e.v) ELSE e.v]

Admit(s, e) ==
    IF ~Admissible(e) THEN s
    ELSE [s EXCEPT !.known = @ \cup {e.p}, !.removed = @ \ {e.p}, !.best = Keep(@, e)]

RECURSIVE AdmitAll(_, _)
AdmitAll(s, list) == IF list = <<>> THEN s ELSE AdmitAll(Admit(s, Head(list)), Tail(list))
\* those which are reported as added, in this order
Admitted(list) == LET ok == SelectSeq(list, Admissible) IN [i \in DOMAIN ok |-> ok[i].p]

Remove(s, p) == [s EXCEPT !.removed = @ \cup {p}, !.neigh = @ \ {p}]
\* (the peer does not have to be known)
RemoveDone(s, p) == p \notin s.removed

\* Entries in a query of a peer
Learn(s, e) == IF e.ok /\ e.p # 0 THEN [s EXCEPT !.received = Keep(@, e)] ELSE s
RECURSIVE LearnAll(_, _)
LearnAll(s, list) == IF list = <<>> THEN s ELSE LearnAll(Learn(s, Head(list)), Tail(list))
Taken(s) == [s EXCEPT !.received = <<>>]

\* The neighbours in a state: as many active ones as possible
Enough(s, neigh) == neigh \subseteq Active(s) /\ Cardinality(neigh) = Min(s.cap, Cardinality(Active(s)))
\* ... which follow the ones in state s0. New members only add to them, as does the replacement of one
\* which was removed; every renewal replaces at most one
NeighboursFollow(s0, s, neigh, renewals) ==
    /\ Enough(s, neigh)
    /\ Cardinality((s0.neigh \cap Active(s)) \ neigh) <=
          renewals + (IF s0.neigh \subseteq Active(s) THEN 0 ELSE s.cap)

\* What is passed on to another member: entries [p, v] and one of our own
Exchanged(s, list) ==
    /\ \A i \in DOMAIN list :
         /\ list[i].p \in s.neigh /\ list[i].p \in DOMAIN s.best
         /\ list[i].v = s.best[list[i].p]
         /\ \A j \in DOMAIN list : list[j].p = list[i].p => i = j
    /\ Len(list) = Min(4, Cardinality(s.neigh \cap DOMAIN s.best))

\* What is returned of the entries in an answer
Found(s, list) ==
    LET ok == SelectSeq(list, LAMBDA e : e.ok /\ e.p # 0 /\ e.p \notin s.known)
    IN {ok[i].p : i \in DOMAIN ok}
=============================================================================
