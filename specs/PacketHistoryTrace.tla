------------------------- MODULE PacketHistoryTrace -------------------------
EXTENDS PacketHistory, TraceKit

TInit == HInit /\ l = 1

TReset == Is("Reset") /\ ResetHistories(H)
TResetHistory == Is("ResetHistory") /\ ResetHistories(Range(Ev.hs))
TDeliver == Is("Deliver") /\ Deliver(Ev.h, Ev.n, Ev.res)
TRace == /\ Is("Race")
         /\ Race(Ev.h, Range(Ev.set),
                 [n \in Range(Ev.set) |->
                    Ev.accepted[CHOOSE i \in 1..Len(Ev.set) : Ev.set[i] = n]])

TNext == TReset \/ TResetHistory \/ TDeliver \/ TRace
TSpec == TInit /\ [][TNext]_<<hvars, l>>
=============================================================================
