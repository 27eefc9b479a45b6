---------------------------- MODULE ChannelsTrace ----------------------------
(* Trace specification of two nodes on a network that loses, repeats, delays *)
(* and reorders packets (A02). The contents of handshakes are logged; what   *)
(* is inside of the packets sealed with channels follows from the state.     *)
EXTENDS Adnl, TraceKit

VARIABLES st,       \* the pair of each node
          o,
          pkts,     \* packets sent so far
          held,     \* the channels each node has had
          queries   \* pending queries: q -> [n, chan]
vars == <<st, o, pkts, held, queries, l>>

Nodes == {1, 2}
Other(n) == 3 - n
None == [history |-> FALSE, required |-> TRUE, tolerance |-> 60, reset |-> 30, start |-> 0]
TInit == st = <<NoPair, NoPair>> /\ o = <<None, None>> /\ pkts = <<>> /\ held = <<{}, {}>> /\ queries = <<>> /\ l = 1

View(s, qs) == \A n \in Nodes :
    /\ Ev.view[n].peers = (IF Known(s[n]) THEN 1 ELSE 0)
    /\ Ev.view[n].chans = (IF HasChan(s[n]) THEN 1 ELSE 0)
    /\ Ev.view[n].ids = 2 * Ev.view[n].chans
    /\ Ev.view[n].queries = Cardinality({q \in DOMAIN qs : qs[q].n = n})

KeyOf(pkt) == IF Len(pkt.msgs) > 0 /\ pkt.msgs[1][1] \in {"Create", "Confirm"} THEN pkt.msgs[1][2] ELSE 0
Reveal(s, k) == IF k = 0 \/ s.key # 0 THEN s
                ELSE [s EXCEPT !.key = k, !.chan.mk = IF s.chan.id # 0 THEN k ELSE 0]

Bad == [ok |-> FALSE, s |-> NoPair, outs |-> <<>>, sent |-> <<>>, delivered |-> <<>>, answered |-> {}]
Emitted(x, n, m, now) ==
    IF x.outs = <<>> \/ ~x.ok THEN Bad
    ELSE LET out == Head(x.outs)
             s == IF out.tr = "hs" THEN Reveal(x.s, KeyOf(out)) ELSE x.s
             exp == OutPacket(s, m, "ord", now)
             pkt == exp @@ [seqno |-> IF out.tr = "hs" THEN out.seqno ELSE s.sent[1] + 1,
                            confirm |-> IF out.tr = "hs" THEN out.confirm ELSE s.high[1]]
         IN
         IF /\ out.n = n /\ out.sound
            /\ (out.tr = "hs") = (exp.tr = "hs")
            /\ Numbered(s, pkt)
            /\ out.tr = "hs" => out.src = exp.src /\ out.dst = exp.dst /\ out.msgs = exp.msgs
            /\ out.tr # "hs" => s.chan.mk # 0
         THEN [x EXCEPT !.s = AfterOut(s, pkt), !.outs = Tail(@), !.sent = (out.i :> [to |-> Other(n), p |-> pkt]) @@ @]
         ELSE Bad

RECURSIVE Process(_, _, _, _)
Process(x, n, msgs, now) ==
    IF msgs = <<>> \/ ~x.ok THEN x
    ELSE LET m == Head(msgs) IN
         Process(
           CASE m[1] = "Custom" ->
                  IF x.delivered # <<>> /\ Head(x.delivered) = m[2] THEN [x EXCEPT !.delivered = Tail(@)] ELSE Bad
             [] m[1] = "Query" -> Emitted(x, n, Answer(m[2]), now)
             [] m[1] = "Answer" -> [x EXCEPT !.answered = @ \cup {m[2]}]
             [] OTHER -> [x EXCEPT !.s = Handle(x.s, m)],
           n, Tail(msgs), now)
Start(s) == [ok |-> TRUE, s |-> s, outs |-> Ev.out, sent |-> <<>>, delivered |-> Ev.delivered, answered |-> {}]
Done(x) == x.ok /\ x.outs = <<>> /\ x.delivered = <<>>

Arrives(p) == [tr |-> p.tr, mk |-> p.pk, pk |-> p.mk, altered |-> Ev.altered, ver |-> -1,
               from |-> IF p.tr = "hs" THEN "full" ELSE "none", short |-> "none",
               sig |-> IF p.tr = "hs" THEN "good" ELSE "none", list |-> 1, lgood |-> TRUE,
               src |-> p.src, dst |-> p.dst, seqno |-> p.seqno, confirm |-> p.confirm, msgs |-> p.msgs]

Update(n, x, qs) ==
    /\ st' = [st EXCEPT ![n] = x.s] /\ pkts' = x.sent @@ pkts /\ queries' = qs
    /\ held' = [held EXCEPT ![n] = IF HasChan(x.s) THEN @ \cup {<<x.s.chan.mk, x.s.chan.pk>>} ELSE @]
    /\ View(st', queries')

TReset == /\ Is("Reset") /\ st' = <<NoPair, NoPair>> /\ pkts' = <<>> /\ held' = <<{}, {}>> /\ queries' = <<>>
          /\ o' = [n \in Nodes |-> IF "opts" \in DOMAIN Ev THEN Ev.opts @@ None ELSE None]
\* a node (re)starts, and learns the address of the other one if Ev.known
TStart == /\ Is("Start")
          /\ o' = [o EXCEPT ![Ev.n].start = Ev.now]
          /\ st' = [st EXCEPT ![Ev.n] = IF Ev.known THEN NewPair(o'[Ev.n], NoPair, 1) ELSE NoPair]
          /\ queries' = [q \in {q \in DOMAIN queries : queries[q].n # Ev.n} |-> queries[q]]
          /\ UNCHANGED <<pkts, held>> /\ View(st', queries')
TSend == /\ Is("Send")
         /\ LET x == Emitted(Start(st[Ev.n]), Ev.n, Custom(Ev.q), Ev.now) IN
            IF Known(st[Ev.n]) THEN Ev.ok /\ Done(x) /\ Update(Ev.n, x, queries)
            ELSE ~Ev.ok /\ Ev.out = <<>> /\ UNCHANGED <<st, pkts, held, queries>>
         /\ UNCHANGED o
TQuery == /\ Is("Query")
          /\ LET x == Emitted(Start(st[Ev.n]), Ev.n, Query(Ev.q), Ev.now) IN
             IF Known(st[Ev.n])
             THEN Ev.ok /\ Done(x) /\ Update(Ev.n, x, (Ev.q :> [n |-> Ev.n, chan |-> x.s.chan.id]) @@ queries)
             ELSE ~Ev.ok /\ Ev.out = <<>> /\ UNCHANGED <<st, pkts, held, queries>>
          /\ UNCHANGED o
TQueryFailed ==
    /\ Is("QueryFailed") /\ Ev.q \in DOMAIN queries /\ Ev.failed
    /\ LET q == queries[Ev.q] IN
       /\ st' = [st EXCEPT ![q.n] = QueryFailed(o[q.n], @, q.chan, 0, Ev.now)]
       /\ queries' = [x \in DOMAIN queries \ {Ev.q} |-> queries[x]]
    /\ UNCHANGED <<o, pkts, held>> /\ View(st', queries')
TDeliver ==
    /\ Is("Deliver") /\ Ev.i \in DOMAIN pkts
    /\ LET n == pkts[Ev.i].to
           p == pkts[Ev.i].p
           r == Check(o[n], st[n], Arrives(p), Ev.now)
           x == IF r.ok THEN Process(Start(r.st), n, p.msgs, Ev.now)
                ELSE IF r.nop THEN Emitted(Start(r.st), n, Nop, Ev.now)
                ELSE Start(r.st)
           mine == {q \in x.answered \cap DOMAIN queries : queries[q].n = n}
       IN
       /\ Done(x)
       /\ Range(Ev.answered) = mine
       /\ Update(n, x, [q \in DOMAIN queries \ mine |-> queries[q]])
    /\ UNCHANGED o
\* the network has delivered for a while: the last messages have arrived
THealed == Is("Healed") /\ Ev.got = <<TRUE, TRUE>> /\ UNCHANGED <<st, o, pkts, held, queries>>

TNext == TReset \/ TStart \/ TSend \/ TQuery \/ TQueryFailed \/ TDeliver \/ THealed
TSpec == TInit /\ [][TNext]_vars

(* A channel counts as ready only when the other node has (had) the same      *)
Agreed == \A n \in Nodes : st[n].chan.ready /\ st[n].chan.mk # 0 =>
    <<st[n].chan.pk, st[n].chan.mk>> \in held[Other(n)]
Opens2 == \A n \in Nodes : st[n].chan.ready /\ st[n].chan.mk # 0 /\ st[Other(n)].key = st[n].chan.pk =>
    st[Other(n)].chan.mk = st[n].chan.pk /\ st[Other(n)].chan.pk = st[n].chan.mk
=============================================================================
