--------------------------- MODULE RldpTransferMC ---------------------------
(* Sender and receiver of one message of two parts over a network that loses,*)
(* repeats and reorders both symbols and reports.                            *)
EXTENDS RldpTransfer

CONSTANTS MaxEsi, MaxNet

VARIABLES r, s, net, acks, out

Lens == <<16, 8>>
Total == 24
Par(p) == <<Lens[p + 1], 8, Lens[p + 1] \div 8>>
Chunk(p, e) == [part |-> p, total |-> Total, par |-> Par(p), esi |-> e, good |-> TRUE]

vars == <<r, s, net, acks, out>>
Init == r = NewReceiver(0) /\ s = NewSender(0) /\ net = {} /\ acks = {} /\ out = 0

\* (the number of the next symbol is taken as the implementation does)
Send == /\ ~s.over /\ s.next < MaxEsi /\ Cardinality(net) < MaxNet
        /\ SendSymbols(s, s.part, Total, Par(s.part), <<s.next>>)
        /\ s' = SentSymbols(s, Total, Par(s.part), <<s.next>>)
        /\ net' = net \cup {Chunk(s.part, s.next)}
        /\ UNCHANGED <<r, acks, out>>
Deliver(keep) ==
    \E c \in net : \E o \in Receive(r, c, Total) :
        /\ Cardinality(acks) < MaxNet
        /\ r' = o.r
        /\ out' = IF o.out THEN out + 1 ELSE out
        /\ acks' = acks \cup {o.replies[i] : i \in 1..Len(o.replies)}
        /\ net' = IF keep THEN net ELSE net \ {c}
        /\ UNCHANGED s
Lose == \E c \in net : net' = net \ {c} /\ UNCHANGED <<r, s, acks, out>>
LoseAck == \E a \in acks : acks' = acks \ {a} /\ UNCHANGED <<r, s, net, out>>
Report(keep) ==
    \E a \in acks :
        /\ s' = IF a[1] = "Confirm" THEN OnConfirm(s, a[2], a[3], 0) ELSE OnComplete(s, a[2], 0)
        /\ acks' = IF keep THEN acks ELSE acks \ {a}
        /\ UNCHANGED <<r, net, out>>

Next == Send \/ Deliver(TRUE) \/ Deliver(FALSE) \/ Lose \/ LoseAck \/ Report(TRUE) \/ Report(FALSE)
Spec == Init /\ [][Next]_vars

TypeOK == r.part \in 0..1 /\ s.part \in 0..2 /\ r.have \in {0, 16, 24}
\* the sender is never ahead of the receiver
Behind == s.part <= r.part \/ (r.done /\ s.over)
\* it ends only with everything received
Over == s.over => r.done
\* handed over once and with everything
Once == out = (IF r.done THEN 1 ELSE 0)
Whole == r.done => r.have = Total

-----------------------------------------------------------------------------
(* Whatever was lost before: as soon as the network delivers, the transfer   *)
(* comes to its end.                                                         *)
RECURSIVE Answer(_, _)
Answer(sender, replies) ==
    IF replies = <<>> THEN sender
    ELSE LET a == Head(replies) IN
         Answer(IF a[1] = "Confirm" THEN OnConfirm(sender, a[2], a[3], 0) ELSE OnComplete(sender, a[2], 0), Tail(replies))
RECURSIVE Goes(_, _, _)
Goes(receiver, sender, n) ==
    \/ sender.over /\ receiver.done
    \/ /\ n > 0 /\ ~sender.over
       /\ \A o \in Receive(receiver, Chunk(sender.part, sender.next), Total) :
            Goes(o.r, Answer(SentSymbols(sender, Total, Par(sender.part), <<sender.next>>), o.replies), n - 1)
Heals == s.over \/ Goes(r, s, 2 * (2 + Extra + 1))
=============================================================================
