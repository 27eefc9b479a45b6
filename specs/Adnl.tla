-------------------------------- MODULE Adnl --------------------------------
(* The ADNL peer pair: what a node keeps for one pair (local identity, peer) *)
(* and how packets and messages change it. Pure operators on the state of a  *)
(* pair; used by the models of A01, A02, A03, A07, A12 and by their trace    *)
(* specification.                                                            *)
(*                                                                           *)
(* Dates are positive numbers of seconds, 0 stands for "none". Channel keys  *)
(* are numbers; key 0 of our side means "not shown yet".                     *)
EXTENDS Integers, Sequences, FiniteSets

Max(a, b) == IF a > b THEN a ELSE b

NoChan == [id |-> 0, pk |-> 0, mk |-> 0, date |-> 0, ready |-> FALSE, drop |-> 0]
HasChan(st) == st.chan.id # 0

(* addr: 0 if the peer is not known; src: incarnation of the peer; loc: our  *)
(* incarnation for this pair; key: our channel key; acc, high: accepted      *)
(* sequence numbers and the highest (ordinary, priority); sent: last used;   *)
(* heard: something came by the priority channel                             *)
NoPair == [addr |-> 0, src |-> 0, loc |-> 0, key |-> 0, chan |-> NoChan, made |-> 0,
           acc |-> <<{}, {}>>, high |-> <<0, 0>>, sent |-> <<0, 0>>, heard |-> FALSE]
Known(st) == st.addr # 0
\* A pair starts with the incarnation of the node; a pair that was removed
\* before starts with a newer one
NewPair(o, st, addr) == [NoPair EXCEPT !.addr = addr, !.loc = IF st.loc = 0 THEN o.start ELSE st.loc + 1]
Removed(st) == [NoPair EXCEPT !.loc = st.loc]

Fresh(st) == [st EXCEPT !.acc = <<{}, {}>>, !.high = <<0, 0>>, !.sent = <<0, 0>>, !.heard = FALSE]

\* Everything about the pair starts anew, in a new incarnation of ours
ResetPair(st, key) ==
    [Fresh(st) EXCEPT !.key = key, !.chan = NoChan, !.src = 0, !.loc = @ + 1]

Prio(tr) == IF tr = "pri" THEN 2 ELSE 1

------------------------------------------------------------------------------
(* Receiving a packet. Fields: tr - "hs", "ord" or "pri"; mk, pk - keys of    *)
(* the channel it is sealed with; altered - changed after sealing or sealed  *)
(* for someone else; ver - protocol version (-1: none); from - "full",       *)
(* "bad" or "none"; short - "match", "mismatch" or "none"; sig - "good",     *)
(* "bad" or "none"; list - announced address (0: no list); lgood - the list  *)
(* is acceptable; src, dst - incarnations (-1: none); seqno, confirm (-1:    *)
(* none); msgs.                                                              *)

\* The packet opens with the key of the identity or with the current channel
Opens(st, pkt) ==
    /\ ~pkt.altered
    /\ \/ pkt.tr = "hs"
       \/ HasChan(st) /\ st.chan.mk = pkt.mk /\ st.chan.pk = pkt.pk /\ pkt.mk # 0

\* whatever opens with the channel shows that the peer has it
Alive(st, pkt) == IF pkt.tr = "hs" THEN st ELSE [st EXCEPT !.chan.ready = TRUE, !.chan.drop = 0]

Signed(o, pkt) == pkt.sig = "good" \/ (pkt.sig = "none" /\ ~o.required)

SourceOk(o, st, pkt) ==
    IF pkt.tr # "hs" THEN pkt.from = "none" /\ pkt.short = "none" /\ pkt.sig # "bad"
    ELSE IF pkt.from = "full" THEN pkt.short # "mismatch" /\ Signed(o, pkt) /\ (pkt.list = 0 \/ pkt.lgood)
    ELSE pkt.from = "none" /\ pkt.short = "match" /\ Known(st) /\ Signed(o, pkt)

\* the address announced by a packet with the full key of its sender
Learn(o, st, pkt) ==
    IF pkt.tr = "hs" /\ pkt.from = "full" /\ pkt.list # 0
    THEN IF Known(st) THEN [st EXCEPT !.addr = pkt.list] ELSE NewPair(o, st, pkt.list)
    ELSE st

(* The result of a check: the new state, whether the packet is accepted, and *)
(* whether the peer is told our incarnation                                  *)
Res(st, ok, nop) == [st |-> st, ok |-> ok, nop |-> nop]

CheckSeqno(o, st, pkt) ==
    LET i == Prio(pkt.tr)
        dup == o.history /\ pkt.seqno # -1 /\ pkt.seqno \in st.acc[i]
        st0 == IF i = 2 /\ pkt.seqno > 0 THEN [st EXCEPT !.heard = TRUE] ELSE st
        st1 == IF o.history /\ pkt.seqno # -1
               THEN [st0 EXCEPT !.acc[i] = @ \cup {pkt.seqno}, !.high[i] = Max(@, pkt.seqno)] ELSE st0
    IN
    IF dup THEN Res(st, FALSE, FALSE)
    ELSE Res(st1, pkt.confirm = -1 \/ pkt.confirm <= st.sent[i], FALSE)

CheckDates(o, st, pkt, now) ==
    IF pkt.src = -1 THEN CheckSeqno(o, st, pkt)
    ELSE IF pkt.dst > st.loc \/ pkt.src > now + o.tolerance \/ pkt.src < st.src THEN Res(st, FALSE, FALSE)
    ELSE LET newer == pkt.src > st.src
             st1 == IF newer THEN (IF st.src # 0 THEN [Fresh(st) EXCEPT !.src = pkt.src, !.chan = IF pkt.tr = "hs" THEN NoChan ELSE @]
                                                 ELSE [st EXCEPT !.src = pkt.src])
                    ELSE st
         IN IF pkt.dst # 0 /\ pkt.dst < st.loc THEN Res(st1, FALSE, TRUE)
            ELSE CheckSeqno(o, st1, pkt)

Check(o, st, pkt, now) ==
    IF ~Opens(st, pkt) THEN Res(st, FALSE, FALSE)
    ELSE LET st1 == Alive(st, pkt) IN
         IF pkt.ver \notin {-1, 0} \/ ~SourceOk(o, st1, pkt) THEN Res(st1, FALSE, FALSE)
         ELSE LET st2 == Learn(o, st1, pkt) IN
              IF ~Known(st2) THEN Res(st2, FALSE, FALSE)
              ELSE CheckDates(o, st2, pkt, now)

------------------------------------------------------------------------------
(* Messages are tuples: <<"Custom", n, 0, 0>>, <<"Query", n, 0, 0>> (a ping), *)
(* <<"Answer", n, 0, 0>>, <<"Nop", 0, 0, 0>>, <<"Create", key, date, 0>>,     *)
(* <<"Confirm", key, peer's key, date>>                                      *)
Custom(n) == <<"Custom", n, 0, 0>>
Query(n) == <<"Query", n, 0, 0>>
Answer(n) == <<"Answer", n, 0, 0>>
Nop == <<"Nop", 0, 0, 0>>
Create(k, d) == <<"Create", k, d, 0>>
Confirm(k, pk, d) == <<"Confirm", k, pk, d>>

NewChannel(st, k, d, confirmed) ==
    [st EXCEPT !.made = @ + 1,
               !.chan = [id |-> st.made + 1, pk |-> k, mk |-> st.key, date |-> d,
                         ready |-> confirmed, drop |-> 0]]

(* A channel offered (confirmed = FALSE) or confirmed by the peer. It counts *)
(* as confirmed only if the peer names our current key, and only for the     *)
(* very key the peer confirms.                                               *)
Offer(st, k, d, confirmed) ==
    IF ~HasChan(st) THEN NewChannel(st, k, d, confirmed)
    ELSE IF st.chan.pk = k THEN [st EXCEPT !.chan.ready = @ \/ confirmed]
    ELSE IF st.chan.date >= d THEN st
    ELSE NewChannel(st, k, d, confirmed)

Handle(st, m) ==
    CASE m[1] = "Create" -> Offer(st, m[2], m[3], FALSE)
      [] m[1] = "Confirm" -> IF m[3] = st.key /\ st.key # 0 THEN Offer(st, m[2], m[4], TRUE) ELSE st
      [] OTHER -> st

------------------------------------------------------------------------------
(* Sending a message: the packet that leaves (kind: "ord" or "pri", for      *)
(* channels) and the state after it                                          *)
OutPacket(st, m, kind, now) ==
    IF HasChan(st) /\ st.chan.ready
    THEN [tr |-> kind, mk |-> st.chan.mk, pk |-> st.chan.pk,
          src |-> -1, dst |-> -1, msgs |-> <<m>>]
    ELSE [tr |-> "hs", mk |-> 0, pk |-> 0,
          src |-> st.loc, dst |-> st.src,
          msgs |-> <<IF HasChan(st) THEN Confirm(st.key, st.chan.pk, st.chan.date)
                                    ELSE Create(st.key, now), m>>]
(* Kinds of channel for a packet that wants to be in a priority channel or   *)
(* not: one that the peer does not use is tried a few times and then given   *)
(* up.                                                                       *)
Few == 5
Many == 20
Kinds(st, want) ==
    IF ~want THEN {"ord"}
    ELSE IF st.heard \/ st.sent[2] < Few THEN {"pri"}
    ELSE IF st.sent[2] >= Many THEN {"ord"}
    ELSE {"ord", "pri"}
\* sequence numbers of sent packets grow, only received ones are confirmed
Numbered(st, pkt) == /\ pkt.seqno > st.sent[Prio(pkt.tr)]
                     /\ pkt.confirm \in 0..st.high[Prio(pkt.tr)]
AfterOut(st, pkt) == [st EXCEPT !.sent[Prio(pkt.tr)] = pkt.seqno]

------------------------------------------------------------------------------
(* A query that was sent when channel id was in use has failed at now        *)
QueryFailed(o, st, id, key, now) ==
    IF ~HasChan(st) \/ st.chan.id # id THEN st
    ELSE IF st.chan.drop = 0 THEN [st EXCEPT !.chan.drop = now + o.reset]
    ELSE IF st.chan.drop < now THEN ResetPair(st, key)
    ELSE st
=============================================================================
