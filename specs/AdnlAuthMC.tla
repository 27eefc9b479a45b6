----------------------------- MODULE AdnlAuthMC -----------------------------
(* A01: every kind of packet in every state of a pair. What is accepted, and *)
(* what changes, is compared with who can have made the packet.              *)
EXTENDS Adnl, ScriptKit

CONSTANT Depth
VARIABLES st, o, script, last
vars == <<st, o, script, last>>

Now == 20
MK == 1    \* our key
PK == 2    \* key of the peer
PK2 == 3   \* another key of the peer
Opts == {[history |-> h, required |-> r, tolerance |-> 2, reset |-> 30, start |-> 10] :
           h \in BOOLEAN, r \in BOOLEAN}

Seen(op) == [NewPair(op, NoPair, 1) EXCEPT !.src = 15, !.key = MK]
Offered(op) == Offer(Seen(op), PK, 16, FALSE)
States(op) == [unknown |-> NoPair, seen |-> Seen(op), offered |-> Offered(op),
               ready |-> [Offered(op) EXCEPT !.chan.ready = TRUE, !.chan.drop = 33]]

Init == /\ o \in Opts
        /\ \E s \in {"unknown", "seen", "offered", "ready"} :
             /\ st = States(o)[s]
             /\ script = <<[op |-> "State", state |-> s, history |-> o.history, required |-> o.required]>>
        /\ last = [pkt |-> <<>>, before |-> st, res |-> Res(st, FALSE, FALSE)]

Msgs == {<<"Custom">>, <<"Create">>, <<"Confirm">>, <<"Query">>}
Message(m) == CASE m = "Create" -> Create(PK2, Now)
                [] m = "Confirm" -> Confirm(PK2, MK, Now)
                [] OTHER -> Custom(1)
Packets ==
    [tr : {"hs", "ord", "pri"}, altered : BOOLEAN, ver : {-1, 0, 1}, from : {"none", "full", "bad"},
     short : {"none", "match", "mismatch"}, sig : {"good", "bad", "none"}, list : {0, 1, 2},
     lgood : BOOLEAN, m : {"Custom", "Query", "Create", "Confirm"}]
\* leave out what differs only in fields that do not matter
Interesting(p) ==
    /\ p.list = 0 => p.lgood
    /\ p.altered => p.ver = -1 /\ p.from = (IF p.tr = "hs" THEN "full" ELSE "none") /\ p.short = "none" /\ p.lgood
                    /\ (p.tr # "hs" => p.sig = "none")
    /\ p.ver = 1 => p.from = (IF p.tr = "hs" THEN "full" ELSE "none") /\ p.short = "none" /\ p.lgood
    /\ p.from = "bad" => p.short # "mismatch" /\ p.list # 2
    /\ p.tr # "hs" => p.list # 2
Packet(p) == [tr |-> p.tr, mk |-> IF p.tr = "hs" THEN 0 ELSE MK, pk |-> IF p.tr = "hs" THEN 0 ELSE PK,
              altered |-> p.altered, ver |-> p.ver, from |-> p.from, short |-> p.short, sig |-> p.sig,
              list |-> p.list, lgood |-> p.lgood, src |-> IF p.tr = "hs" THEN 15 ELSE -1,
              dst |-> IF p.tr = "hs" THEN 0 ELSE -1, seqno |-> 5, confirm |-> 0, msgs |-> <<Message(p.m)>>]

In == \E p \in Packets :
    /\ Interesting(p)
    \* a channel packet cannot be made before both keys are known
    /\ p.tr # "hs" => HasChan(st)
    /\ LET pkt == Packet(p)
           r == Check(o, st, pkt, Now) IN
       /\ last' = [pkt |-> pkt, before |-> st, res |-> r]
       /\ st' = IF r.ok THEN Handle(r.st, pkt.msgs[1]) ELSE r.st
       /\ script' = Append(script, [op |-> "In", p |-> p])
       /\ UNCHANGED o
Next == Len(script) <= Depth /\ In
Spec == Init /\ [][Next]_vars

(* Who can have made a packet                                                *)
ByPeer(p) == p.sig = "good"
InChannel(s, p) == p.tr # "hs" /\ HasChan(s) /\ p.mk = s.chan.mk /\ p.pk = s.chan.pk
Forged(s, p) == \/ p.altered
                \/ p.ver = 1
                \/ p.sig = "bad"
                \/ p.tr = "hs" /\ ~ByPeer(p) /\ o.required
                \/ p.tr = "hs" /\ (p.from = "bad" \/ p.short = "mismatch" \/ (p.from = "none" /\ p.short = "none"))
                \/ p.tr # "hs" /\ (~InChannel(s, p) \/ p.from # "none" \/ p.short # "none")
\* ready and drop belong to the channel, and whoever seals with it is the peer
Same(a, b) == [a EXCEPT !.chan.ready = TRUE, !.chan.drop = 0] = [b EXCEPT !.chan.ready = TRUE, !.chan.drop = 0]

NothingFromForged == last.pkt # <<>> /\ Forged(last.before, last.pkt) =>
    /\ ~last.res.ok /\ ~last.res.nop
    /\ Same(last.res.st, last.before)
    /\ last.pkt.altered \/ last.pkt.tr = "hs" => st = last.before
\* and what is genuine gets through
GenuineAccepted == last.pkt # <<>> /\ ~Forged(last.before, last.pkt) =>
    (last.res.ok <=> /\ (Known(last.before) \/ (last.pkt.from = "full" /\ last.pkt.list # 0))
                     /\ (last.pkt.list = 0 \/ last.pkt.lgood \/ last.pkt.from # "full")
                     /\ ~(o.history /\ last.pkt.seqno \in last.before.acc[Prio(last.pkt.tr)]))
\* a channel becomes ready only through the peer
ReadyByPeer == last.pkt # <<>> /\ st.chan.ready /\ ~last.before.chan.ready =>
    ~last.pkt.altered /\ (InChannel(last.before, last.pkt) \/ (last.pkt.msgs[1][1] = "Confirm" /\ last.pkt.msgs[1][3] = last.before.key))
Emit == Len(script) = Depth + 1 => EmitScript(script)
=============================================================================
