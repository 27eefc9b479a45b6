----------------------------- MODULE AdnlDatesMC ----------------------------
(* A07: incarnations of a peer and of the node, in every short history of    *)
(* packets, restarts, resets and removals.                                   *)
EXTENDS Adnl, ScriptKit

CONSTANTS Depth, Writes
VARIABLES st, o, now, peer, key, script, last
vars == <<st, o, now, peer, key, script, last>>

\* peer: date - its incarnation, seq - last used number, node - our incarnation as it knows it
Init == /\ o = [history |-> TRUE, required |-> TRUE, tolerance |-> 2, reset |-> 3, start |-> 10]
        /\ now = 10 /\ key = 1
        /\ st = NoPair
        /\ peer = [date |-> 5, seq |-> 0, node |-> 0]
        /\ script = <<>>
        /\ last = [op |-> "Init", before |-> st, res |-> Res(st, FALSE, FALSE), src |-> 0, dst |-> 0]

Src(kind) == CASE kind = "none" -> -1
               [] kind = "older" -> peer.date - 1
               [] kind = "same" -> peer.date
               [] kind = "newer" -> Max(peer.date, now)
               [] kind = "edge" -> now + o.tolerance
               [] kind = "over" -> now + o.tolerance + 1
Cur == IF peer.node = 0 THEN o.start ELSE peer.node
Dst(kind) == CASE kind = "zero" -> 0
               [] kind = "older" -> Cur - 1
               [] kind = "same" -> Cur
               [] kind = "newer" -> Cur + 1
Log(e) == script' = Append(script, e)

\* the answer to a packet for an older incarnation tells the peer the current one
In == \E s \in {"none", "older", "same", "newer", "edge", "over"}, d \in {"zero", "older", "same", "newer"},
         q \in {"fresh", "repeated"} :
    /\ s = "none" => d = "zero"
    /\ LET seq == IF q = "fresh" THEN peer.seq + 1 ELSE Max(peer.seq, 1)
           pkt == [tr |-> "hs", mk |-> 0, pk |-> 0, altered |-> FALSE, ver |-> -1, from |-> "full",
                   short |-> "none", sig |-> "good", list |-> 1, lgood |-> TRUE,
                   src |-> Src(s), dst |-> IF s = "none" THEN -1 ELSE Dst(d),
                   seqno |-> seq, confirm |-> 0, msgs |-> <<Custom(1)>>]
           r == Check(o, st, pkt, now) IN
       /\ st' = r.st
       /\ peer' = [peer EXCEPT !.seq = Max(@, seq), !.node = IF r.nop THEN st'.loc ELSE @]
       /\ last' = [op |-> "In", before |-> st, res |-> r, src |-> pkt.src, dst |-> pkt.dst]
       /\ Log([op |-> "In", src |-> s, dst |-> d, seq |-> q])
       /\ UNCHANGED <<o, now, key>>
Other(op) == last' = [op |-> op, before |-> st, res |-> Res(st', FALSE, FALSE), src |-> 0, dst |-> 0] /\ Log([op |-> op])

\* the node sends; the peer learns its incarnation
Send == /\ Known(st)
        /\ peer' = [peer EXCEPT !.node = st.loc]
        /\ st' = [st EXCEPT !.sent[1] = @ + 1]
        /\ UNCHANGED <<o, now, key>> /\ Other("Send")
\* the pair is reset (a channel was lost)
Reset == /\ Known(st)
         /\ st' = ResetPair(st, 0) /\ now' = now + 6
         /\ UNCHANGED <<o, peer, key>> /\ Other("Reset")
PeerRestart == /\ peer' = [date |-> now, seq |-> 0, node |-> 0]
               \* its clock is past all dates it used
               /\ peer.date < now /\ st.src < now
               /\ UNCHANGED <<st, o, now, key>> /\ Other("PeerRestart")
NodeRestart == /\ now' = now + 1
               /\ o' = [o EXCEPT !.start = now'] /\ st' = NoPair
               /\ UNCHANGED <<peer, key>> /\ Other("NodeRestart")
Readd == /\ Known(st)
         /\ st' = NewPair(o, Removed(st), st.addr)
         /\ UNCHANGED <<o, now, peer, key>> /\ Other("Readd")
Next == Len(script) < Depth /\ (In \/ Send \/ Reset \/ PeerRestart \/ NodeRestart \/ Readd)
Spec == Init /\ [][Next]_vars

\* the newest date of the peer only grows, while the pair is the same
Grows == last.op = "In" => last.res.st.src >= last.before.src
RefusesStale == last.op = "In" /\ last.src # -1 =>
    (last.res.ok => /\ last.src >= last.before.src /\ last.src <= now + o.tolerance
                    /\ last.dst \in {0, last.res.st.loc})
\* a refused packet with a date that is not acceptable changes nothing
NothingFromStale == last.op = "In" /\ last.src # -1 /\ Known(last.before)
                       /\ (last.src < last.before.src \/ last.src > now + o.tolerance \/ last.dst > last.before.loc) =>
    last.res.st = last.before
NewStartsFresh == last.op = "In" /\ last.src > last.before.src /\ last.before.src # 0 /\ last.res.ok =>
    Cardinality(last.res.st.acc[1]) = 1 /\ last.res.st.sent = <<0, 0>>
\* the node says its incarnation exactly to who addresses an older one
Tells == last.op = "In" =>
    (last.res.nop <=> /\ last.src # -1 /\ last.dst # 0 /\ last.dst < last.res.st.loc
                      /\ last.src >= last.before.src /\ last.src <= now + o.tolerance)
\* our incarnation grows with resets and restarts
OurGrows == last.op \in {"Reset", "Readd"} => st.loc > last.before.loc
\* a peer that knows our incarnation and uses its newest date and a fresh number is accepted
\* (one that does not tell its date cannot be told from its earlier incarnation)
Reachable == Known(st) /\ peer.date >= st.src /\
             (\A i \in 1..Len(script) : script[i].op # "In" \/ script[i].src # "none") /\ (peer.node = st.loc \/ peer.node = 0) =>
    Check(o, st, [tr |-> "hs", mk |-> 0, pk |-> 0, altered |-> FALSE, ver |-> -1, from |-> "full",
                  short |-> "none", sig |-> "good", list |-> 1, lgood |-> TRUE, src |-> peer.date,
                  dst |-> peer.node, seqno |-> peer.seq + 1, confirm |-> 0, msgs |-> <<>>], now).ok
\* and one that does not is accepted after the answer
Recovers == Known(st) /\ peer.date >= st.src /\ peer.node < st.loc /\ peer.node # 0 =>
    Check(o, st, [tr |-> "hs", mk |-> 0, pk |-> 0, altered |-> FALSE, ver |-> -1, from |-> "full",
                  short |-> "none", sig |-> "good", list |-> 1, lgood |-> TRUE, src |-> peer.date,
                  dst |-> peer.node, seqno |-> peer.seq + 1, confirm |-> 0, msgs |-> <<>>], now).nop
Emit == Writes /\ Len(script) = Depth => EmitScript(script)
=============================================================================
