------------------------- MODULE RldpTransferTrace --------------------------
EXTENDS RldpTransfer, TraceKit

CONSTANT MinTimeout  \* a sender does not give up earlier

VARIABLES limit, rs, s, rcvd

vars == <<limit, rs, s, rcvd, l>>

TInit == limit = 0 /\ rs = <<>> /\ s = NewSender(0) /\ rcvd = FALSE /\ l = 1

TReset == /\ Is("Reset")
          /\ limit' = (IF "limit" \in DOMAIN Ev THEN Ev.limit ELSE 0)
          /\ rs' = <<>> /\ s' = NewSender(0) /\ rcvd' = FALSE

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

TChunk ==
    /\ Is("Chunk")
    /\ LET r == IF Ev.x \in DOMAIN rs THEN rs[Ev.x] ELSE NewReceiver(Ev.t) IN
       IF Ev.t - r.since > Life
       THEN /\ rs' = Put(rs, Ev.x, r)
            /\ Len(Ev.delivered) <= 1 /\ Range(Ev.delivered) \subseteq {Ev.x}
       \* (the last symbols are of no use to some codes)
       ELSE \E g \in (IF Ev.good /\ Ev.esi > 16776000 THEN BOOLEAN ELSE {Ev.good}) :
            \E o \in Receive(r, [Ev EXCEPT !.good = g], limit) :
            /\ Ev.replies = o.replies
            /\ Ev.delivered = (IF o.out THEN <<Ev.x>> ELSE <<>>)
            /\ rs' = Put(rs, Ev.x, o.r)
    /\ Ev.other = 0
    /\ UNCHANGED <<limit, s, rcvd>>
TWait == /\ Is("Wait") /\ Ev.sent = 0 /\ Ev.delivered = <<>>
         /\ UNCHANGED <<limit, rs, s, rcvd>>

TWave ==
    /\ Is("Wave")
    /\ IF Ev.esis = <<>>
       THEN \* no symbols: the end, or the receiver was silent for long
            /\ s.over \/ Ev.t - s.prog >= MinTimeout
            /\ s' = [s EXCEPT !.over = TRUE]
       ELSE /\ Ev.one /\ Ev.sound
            /\ Ev.head[2] <= limit
            /\ SendSymbols(s, Ev.head[1], Ev.head[2], Ev.head[3], Ev.esis)
            /\ s' = SentSymbols(s, Ev.head[2], Ev.head[3], Ev.esis)
    /\ UNCHANGED <<limit, rs, rcvd>>
TConfirm == /\ Is("Confirm")
            /\ s' = IF Ev.ours THEN OnConfirm(s, Ev.part, Ev.seqno, Ev.t) ELSE s
            /\ UNCHANGED <<limit, rs, rcvd>>
TComplete == /\ Is("Complete")
             /\ s' = IF Ev.ours THEN OnComplete(s, Ev.part, Ev.t) ELSE s
             /\ UNCHANGED <<limit, rs, rcvd>>
TReply == Is("Reply") /\ s' = OnReply(s) /\ UNCHANGED <<limit, rs, rcvd>>
TReceived == Is("Received") /\ Ev.whole /\ rcvd' = TRUE /\ UNCHANGED <<limit, rs, s>>
TEnd == /\ Is("End")
        /\ Ev.silent \/ Ev.evil \/ rcvd
        /\ UNCHANGED <<limit, rs, s, rcvd>>

TNext == TReset \/ TChunk \/ TWait \/ TWave \/ TConfirm \/ TComplete \/ TReply \/ TReceived \/ TEnd
TSpec == TInit /\ [][TNext]_vars
=============================================================================
