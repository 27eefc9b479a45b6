--------------------------- MODULE RldpLimitTrace ---------------------------
EXTENDS RldpLimit, TraceKit

CONSTANT Rest  \* ms after which nothing remains

VARIABLES max, waiting, running, last
vars == <<max, waiting, running, last, l>>

TInit == max = 0 /\ waiting = {} /\ running = {} /\ last = 0 /\ l = 1
TReset == Is("Reset") /\ max' = Ev.max /\ waiting' = {} /\ running' = {} /\ last' = 0

S(f) == Range(f)
Busy == Ev.asked # <<>> \/ Ev.ended # <<>> \/ Ev.failed # <<>> \/ Ev.cancelled # <<>> \/ Ev.started # <<>>
TStep ==
    /\ Is("Step")
    /\ max' = max
    \* (a query may be cancelled and end at the same time)
    /\ LET ended == S(Ev.ended)
           failed == S(Ev.failed)
           cancelled == S(Ev.cancelled) \ (ended \cup failed)
           all == waiting \cup S(Ev.asked)
       IN /\ waiting' = all \ (S(Ev.started) \cup cancelled \cup failed)
          /\ running' = ((running \cup S(Ev.started)) \ (ended \cup cancelled)) \ failed
          /\ Step(max, waiting, running, S(Ev.asked), ended, failed, cancelled, S(Ev.started), waiting', running')
    /\ last' = IF Busy \/ running # {} THEN Ev.t ELSE last
TQuiet == /\ Is("Quiet") /\ waiting = {} /\ running = {}
          /\ Ev.t - last >= Rest => Ev.len = 0 /\ Ev.peers = 0
          /\ UNCHANGED <<max, waiting, running, last>>

TNext == TReset \/ TStep \/ TQuiet
TSpec == TInit /\ [][TNext]_vars
=============================================================================
