------------------------------ MODULE AdnlTrace -----------------------------
(* Trace specification of a node with scripted peers (A01, A03, A07, A12, A13 *)
(* and the node side of A02)                                                 *)
EXTENDS Adnl, TraceKit

CONSTANT Strict  \* the kind of channel of each packet matters (A13)

VARIABLES st,       \* pair <<l, p>> -> state
          o,        \* options
          shown,    \* channel keys the node has shown so far
          queries   \* pending queries: q -> [pair, chan]

vars == <<st, o, shown, queries, l>>

NL == 2
NP == 3
Pairs == (1..NL) \X (1..NP)
AllNew == [k \in Pairs |-> NoPair]
DefaultOptions == [history |-> FALSE, required |-> TRUE, tolerance |-> 60, reset |-> 30, start |-> 0, priority |-> TRUE]

TInit == st = AllNew /\ o = DefaultOptions /\ shown = {} /\ queries = <<>> /\ l = 1

\* what can be seen of the tables
View(s) ==
    /\ \A k \in Pairs : Ev.view.addrs[k[1]][k[2]] = s[k].addr
    /\ Ev.view.peers = Cardinality({k \in Pairs : Known(s[k])})
    /\ Ev.view.chans = Cardinality({k \in Pairs : HasChan(s[k])})
    /\ Ev.view.ids = 2 * Ev.view.chans
    /\ Ev.view.queries = Cardinality(DOMAIN queries')

(* Our channel key becomes known when it is shown for the first time          *)
KeyOf(pkt) == IF Len(pkt.msgs) > 0 /\ pkt.msgs[1][1] \in {"Create", "Confirm"} THEN pkt.msgs[1][2] ELSE 0
Reveal(s, k) == IF k = 0 \/ s.key # 0 THEN s
                ELSE [s EXCEPT !.key = k, !.chan.mk = IF s.chan.id # 0 THEN k ELSE 0]

(* The logged packet out is what sending m gives. Bad: a state that nothing  *)
(* matches                                                                   *)
Bad == [ok |-> FALSE, s |-> NoPair, outs |-> <<>>, delivered |-> <<>>, shown |-> {}, answered |-> {}]
\* want: the packet is one for the priority channel
Emitted(x, k, m, want, now) ==
    IF x.outs = <<>> \/ ~x.ok THEN Bad
    ELSE LET out == Head(x.outs)
             s == Reveal(x.s, KeyOf(out))
             key == KeyOf(out)
             exp == OutPacket(s, m, IF out.tr = "pri" THEN "pri" ELSE "ord", now)
         IN
         IF /\ Numbered(s, out)
            /\ out.sound /\ out.l = k[1] /\ out.p = k[2] /\ out.to = s.addr
            /\ \A f \in DOMAIN exp : out[f] = exp[f]
            /\ Strict /\ out.tr # "hs" => out.tr \in Kinds(s, want)
            \* a key that is new for this pair is new altogether
            /\ x.s.key # 0 \/ key = 0 \/ key \notin x.shown
         THEN [x EXCEPT !.s = AfterOut(s, out), !.outs = Tail(@), !.shown = @ \cup ({key} \ {0})]
         ELSE Bad

RECURSIVE Process(_, _, _, _, _)
Process(x, k, msgs, prio, now) ==
    IF msgs = <<>> \/ ~x.ok THEN x
    ELSE LET m == Head(msgs) IN
         Process(
           CASE m[1] = "Custom" ->
                  IF x.delivered # <<>> /\ Head(x.delivered) = <<k[1], k[2], m[2]>>
                  THEN [x EXCEPT !.delivered = Tail(@)] ELSE Bad
             [] m[1] = "Query" -> Emitted(x, k, Answer(m[2]), prio = 2, now)
             [] m[1] = "Answer" -> [x EXCEPT !.answered = @ \cup {m[2]}]
             [] OTHER -> [x EXCEPT !.s = Handle(x.s, m)],
           k, Tail(msgs), prio, now)

Start(s) == [ok |-> TRUE, s |-> s, outs |-> Ev.out, delivered |-> Ev.delivered, shown |-> shown, answered |-> {}]
Done(x) == x.ok /\ x.outs = <<>> /\ x.delivered = <<>>

TReset == /\ Is("Reset")
          /\ st' = AllNew /\ shown' = {} /\ queries' = <<>>
          /\ o' = IF "opts" \in DOMAIN Ev THEN Ev.opts @@ DefaultOptions ELSE DefaultOptions

\* the node stops and starts again: nothing is left but its keys
TRestart == /\ Is("Restart")
            /\ st' = AllNew /\ queries' = <<>> /\ UNCHANGED shown
            /\ o' = [o EXCEPT !.start = Ev.now]
            /\ View(st')

TAdd == /\ Is("Add") /\ Ev.ok
        /\ LET k == <<Ev.l, Ev.p>> IN
           st' = [st EXCEPT ![k] = IF Known(@) THEN [@ EXCEPT !.addr = Ev.a] ELSE NewPair(o, @, Ev.a)]
        /\ UNCHANGED <<o, shown, queries>> /\ View(st')
TRemove == /\ Is("Remove")
           /\ st' = [st EXCEPT ![<<Ev.l, Ev.p>>] = Removed(@)]
           /\ UNCHANGED <<o, shown, queries>> /\ View(st')

TIn == /\ Is("In")
       /\ LET k == <<Ev.l, Ev.p>>
              r == Check(o, st[k], Ev, Ev.now)
              x == IF k \notin Pairs THEN Start(NoPair)
                   ELSE IF r.ok THEN Process(Start(r.st), k, Ev.msgs, Prio(Ev.tr), Ev.now)
                   ELSE IF r.nop THEN Emitted(Start(r.st), k, Nop, FALSE, Ev.now)
                   ELSE Start(r.st)
          IN
          /\ Done(x)
          /\ Range(Ev.answered) = x.answered \cap DOMAIN queries
          /\ queries' = [q \in DOMAIN queries \ x.answered |-> queries[q]]
          /\ st' = IF k \in Pairs THEN [st EXCEPT ![k] = x.s] ELSE st
          /\ shown' = x.shown
       /\ UNCHANGED o /\ View(st')

TSend == /\ Is("Send")
         /\ LET k == <<Ev.l, Ev.p>> IN
            IF Known(st[k])
            THEN LET x == Emitted(Start(st[k]), k, Custom(Ev.n), o.priority, Ev.now) IN
                 /\ Ev.ok /\ Done(x)
                 /\ st' = [st EXCEPT ![k] = x.s] /\ shown' = x.shown
            ELSE ~Ev.ok /\ Ev.out = <<>> /\ Ev.delivered = <<>> /\ UNCHANGED <<st, shown>>
         /\ UNCHANGED <<o, queries>> /\ View(st')

TQuery == /\ Is("Query")
          /\ LET k == <<Ev.l, Ev.p>> IN
             IF Known(st[k])
             THEN LET x == Emitted(Start(st[k]), k, Query(Ev.n), o.priority, Ev.now) IN
                  /\ Ev.ok /\ Done(x)
                  /\ st' = [st EXCEPT ![k] = x.s] /\ shown' = x.shown
                  /\ queries' = [q \in DOMAIN queries \cup {Ev.n} |->
                       IF q = Ev.n THEN [k |-> k, chan |-> x.s.chan.id] ELSE queries[q]]
             ELSE ~Ev.ok /\ Ev.out = <<>> /\ Ev.delivered = <<>> /\ UNCHANGED <<st, shown, queries>>
          /\ UNCHANGED o /\ View(st')

\* A query has timed out. The time of that is known to within a second.
TQueryFailed ==
    /\ Is("QueryFailed")
    /\ Ev.n \in DOMAIN queries /\ Ev.failed
    /\ LET q == queries[Ev.n] IN
       st' = [st EXCEPT ![q.k] = QueryFailed(o, @, q.chan, 0, Ev.now)]
    /\ queries' = [q \in DOMAIN queries \ {Ev.n} |-> queries[q]]
    /\ UNCHANGED <<o, shown>> /\ View(st')

TNext == TReset \/ TRestart \/ TAdd \/ TRemove \/ TIn \/ TSend \/ TQuery \/ TQueryFailed
TSpec == TInit /\ [][TNext]_vars

\* A01..A12 in terms of the state
ReadyOnlyConfirmed == \A k \in Pairs : st[k].chan.ready => HasChan(st[k])
ChannelsOfKnown == \A k \in Pairs : HasChan(st[k]) => Known(st[k])
=============================================================================
