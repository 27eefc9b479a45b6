--------------------------- MODULE RldpQueryTrace ---------------------------
EXTENDS RldpQuery, TraceKit

VARIABLES qs, mild
vars == <<qs, mild, l>>

TInit == qs = <<>> /\ mild = FALSE /\ l = 1
TReset == Is("Reset") /\ qs' = <<>> /\ mild' = Ev.mild
TAsk == /\ Is("Ask") /\ Ev.q \notin DOMAIN qs
        /\ qs' = [x \in DOMAIN qs \cup {Ev.q} |->
                    IF x = Ev.q THEN NewQuery(Ev.to, Ev.answers, Ev.delay) ELSE qs[x]]
        /\ UNCHANGED mild
TCalled == /\ Is("Called") /\ Ev.known /\ Ev.q \in DOMAIN qs
           /\ MayCall(qs[Ev.q], Ev.at, Ev.t)
           /\ qs' = [qs EXCEPT ![Ev.q] = Called(@, Ev.t)]
           /\ UNCHANGED mild
TResult == /\ Is("Result") /\ Ev.q \in DOMAIN qs
           /\ MayEnd(qs[Ev.q], Ev.res, Ev.whole, mild)
           /\ qs' = [qs EXCEPT ![Ev.q] = Ended(@, Ev.res)]
           /\ UNCHANGED mild
\* every query comes to an end
TEnd == /\ Is("End") /\ \A q \in DOMAIN qs : qs[q].res # "no"
        /\ UNCHANGED <<qs, mild>>

TNext == TReset \/ TAsk \/ TCalled \/ TResult \/ TEnd
TSpec == TInit /\ [][TNext]_vars
=============================================================================
