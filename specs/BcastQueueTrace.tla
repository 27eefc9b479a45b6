-------------------------- MODULE BcastQueueTrace ---------------------------
EXTENDS BcastQueue, TraceKit

VARIABLE s
vars == <<s, l>>

TInit == s = Empty /\ l = 1
TReset == Is("Reset") /\ s' = Empty
\* (told: the consumers which were told since they were asked, once nothing is going on)
Settled == Ev.settled => Told(s', Range(Ev.told)) /\ Ev.len = Len(s'.queue)
TPush == Is("Push") /\ s' = Push(s, Ev.v) /\ Settled
TPoll == /\ Is("Poll")
         /\ IF Ev.ready THEN CanGet(s, Ev.v) /\ s' = Get(s, Ev.c) ELSE s' = Wait(s, Ev.c)
         /\ Settled
TCancel == Is("Cancel") /\ s' = Cancel(s, Ev.c) /\ Settled
\* everybody who was told was asked again, as long as there was somebody
TDrained == Is("Drained") /\ (s.queue = <<>> \/ s.waiting = {}) /\ UNCHANGED s

\* values of several threads: for each producer, the numbers of its values in the order they
\* were returned; all waits are over or dropped
TThreads ==
    /\ Is("Threads")
    /\ \A p \in 1..Len(Ev.got) :
         /\ Len(Ev.got[p]) = Ev.each
         /\ \/ \A i \in 1..Ev.each : Ev.got[p][i] = i
            \/ Ev.consumers > 1 /\ Range(Ev.got[p]) = 1..Ev.each
    /\ UNCHANGED s

TNext == TReset \/ TPush \/ TPoll \/ TCancel \/ TDrained \/ TThreads
TSpec == TInit /\ [][TNext]_vars
=============================================================================
