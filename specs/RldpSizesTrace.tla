--------------------------- MODULE RldpSizesTrace ---------------------------
EXTENDS TraceKit

RealSlack(n) == 128 + n \div 128

VARIABLES xs
vars == <<xs, l>>

INSTANCE RldpSizes WITH Slack <- RealSlack

TInit == xs = <<>> /\ l = 1
TReset == Is("Reset") /\ xs' = <<>>
TAsk == /\ Is("Ask") /\ Ev.q \notin DOMAIN xs
        /\ xs' = [x \in DOMAIN xs \cup {Ev.q} |->
                    IF x = Ev.q THEN NewExchange(Ev.qlen, Ev.alen, Ev.la, Ev.lb) ELSE xs[x]]
TCalled == /\ Is("Called") /\ Ev.q \in DOMAIN xs
           /\ MayCall(xs[Ev.q], Ev.known)
           /\ xs' = [xs EXCEPT ![Ev.q] = Called(@)]
TResult == /\ Is("Result") /\ Ev.q \in DOMAIN xs
           /\ MayEnd(xs[Ev.q], Ev.res, Ev.whole, Ev.wire)
           /\ xs' = [xs EXCEPT ![Ev.q] = Ended(@, Ev.res)]
TEnd == /\ Is("End") /\ \A q \in DOMAIN xs : xs[q].res # "no"
        /\ UNCHANGED xs

TNext == TReset \/ TAsk \/ TCalled \/ TResult \/ TEnd
TSpec == TInit /\ [][TNext]_vars
=============================================================================
