--------------------------- MODULE DhtPeersTrace ----------------------------
EXTENDS DhtPeers, TraceKit

VARIABLES known, pen, bucket, conf
vars == <<known, pen, bucket, conf, l>>

TInit == known = NoPeers /\ pen = <<>> /\ bucket = <<>> /\ conf = <<0, 0>> /\ l = 1
TReset == /\ Is("Reset") /\ known' = NoPeers /\ pen' = <<>>
          /\ bucket' = Ev.bucket /\ conf' = <<Ev.threshold, Ev.maxk>>

\* the nodes counted as bad, and the sizes of the table
ViewIs(k, p, v) ==
    /\ Range(v.bad) = {x \in 1..Len(bucket) : Bad(p, x, conf[1])}
    /\ v.known = Cardinality(DOMAIN k)
    /\ v.buckets = Cardinality(DOMAIN k)

Desc(e) == [ver |-> e.ver, sig |-> e.sig, list |-> e.list, own |-> e.own, denied |-> e.denied]

\* [node, description], a node or more descriptions in an answer or a call
TAnnounce ==
    /\ Is("Announce")
    /\ known' = Admit(known, Ev.p, Desc(Ev))
    /\ pen' = Announced(known, pen, Ev.p, Desc(Ev))
    /\ Ev.done = "added" <=> Acceptable(Desc(Ev)) /\ Ev.how = "call"
    /\ Ev.how = "query" /\ Acceptable(Desc(Ev)) => Ev.done = "answered"
    /\ ViewIs(known', pen', Ev)
    /\ UNCHANGED <<bucket, conf>>

\* the nodes of an answer of a peer are added one by one
RECURSIVE AdmitAll(_, _), AnnounceAll(_, _, _)
AdmitAll(k, list) ==
    IF list = <<>> THEN k ELSE AdmitAll(Admit(k, Head(list).p, Desc(Head(list))), Tail(list))
AnnounceAll(k, p, list) ==
    IF list = <<>> THEN p
    ELSE AnnounceAll(Admit(k, Head(list).p, Desc(Head(list))),
                     Announced(k, p, Head(list).p, Desc(Head(list))), Tail(list))

\* queries of the node to some peers: all answer, or do not, with some nodes
RECURSIVE Outcomes(_, _)
Outcomes(p, list) ==
    IF list = <<>> THEN p
    ELSE Outcomes(IF Head(list)[2] THEN Good(p, Head(list)[1]) ELSE Failed(p, Head(list)[1]), Tail(list))
TQueries ==
    /\ Is("Queries")
    /\ Ev.of = "one" => Cardinality(Range(Ev.asked)) = 1 /\ Len(Ev.asked) = 1
    /\ Ev.of = "all" => {a[1] : a \in Range(Ev.asked)} = DOMAIN known /\ IsInjective(Ev.asked)
    /\ Ev.of = "good" => {a[1] : a \in Range(Ev.asked)} = Asked(known, pen, conf[1]) /\ IsInjective(Ev.asked)
    /\ known' = AdmitAll(known, Ev.nodes)
    /\ pen' = AnnounceAll(known, Outcomes(pen, Ev.asked), Ev.nodes)
    /\ ViewIs(known', pen', Ev)
    /\ UNCHANGED <<bucket, conf>>

Ids(list) == {n[1] : n \in Range(list)}
Sound(list) == /\ \A n \in Range(list) : MayShow(known, n[1], n[2])
               /\ Cardinality(Ids(list)) = Len(list)
TFind ==
    /\ Is("Find") /\ Ev.answered
    /\ Sound(Ev.nodes)
    /\ Nearest(known, bucket, Range(Ev.bits), Ev.k, Ids(Ev.nodes))
    /\ UNCHANGED <<known, pen, bucket, conf>>
TMiss ==
    /\ Is("Miss")
    /\ Ev.answered = (Ev.k \in 1..conf[2])
    /\ Sound(Ev.nodes)
    /\ Ev.answered => Missed(known, Ev.k, Ids(Ev.nodes))
    /\ UNCHANGED <<known, pen, bucket, conf>>

TNext == TReset \/ TAnnounce \/ TQueries \/ TFind \/ TMiss
TSpec == TInit /\ [][TNext]_vars
=============================================================================
