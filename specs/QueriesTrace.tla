---------------------------- MODULE QueriesTrace ----------------------------
EXTENDS Queries, TraceKit

TInit == QInit /\ l = 1

Fin == [q \in {Ev.finished[i][1] : i \in 1..Len(Ev.finished)} |->
           Ev.finished[CHOOSE i \in 1..Len(Ev.finished) : Ev.finished[i][1] = q][2]]
Consistent == /\ Cardinality(DOMAIN Fin) = Len(Ev.finished)
              /\ Ev.count = Cardinality(DOMAIN pending')

TReset == Is("Reset") /\ pending' = <<>>
\* A query that cannot be sent ends with an error at once
TStart == /\ Is("Start")
          /\ IF Ev.fail
             THEN /\ Ev.q \in DOMAIN Fin /\ Fin[Ev.q] = Error /\ ~Ev.sent
                  /\ Step(<<>>, Ev.t0, Ev.t, Without(Fin, {Ev.q}))
             ELSE /\ Ev.sent /\ Ev.q \notin DOMAIN Fin
                  /\ LET p == Without(pending, DOMAIN Fin) IN
                     /\ \A q \in DOMAIN Fin : q \in DOMAIN pending /\ Fin[q] = None /\ pending[q].deadline <= Ev.t + Slack
                     /\ \A q \in DOMAIN p : p[q].deadline > Ev.t - Slack
                     /\ Ev.q \notin DOMAIN pending
                     /\ pending' = [x \in DOMAIN p \cup {Ev.q} |->
                          IF x = Ev.q THEN [deadline |-> Ev.t0 + Ev.to, typed |-> Ev.typed] ELSE p[x]]
          /\ Consistent
TAnswer == Is("Answer") /\ Step(Ev.list, Ev.t0, Ev.t, Fin) /\ Consistent
TWait == Is("Wait") /\ Step(<<>>, Ev.t0, Ev.t, Fin) /\ Consistent
TCancel == /\ Is("Cancel")
           /\ LET p == Without(pending, DOMAIN Fin) IN
              /\ \A q \in DOMAIN Fin : q \in DOMAIN pending /\ Fin[q] = None /\ pending[q].deadline <= Ev.t + Slack
              /\ \A q \in DOMAIN p : q # Ev.q => p[q].deadline > Ev.t - Slack
              /\ pending' = Without(p, {Ev.q})
           /\ Consistent
TBurst == /\ Is("Burst") /\ Ev.count = 0 /\ Ev.asked = Len(Ev.own)
          /\ \A i \in 1..Len(Ev.own) : Ev.own[i]
          /\ UNCHANGED pending

TNext == TReset \/ TStart \/ TAnswer \/ TWait \/ TCancel \/ TBurst
TSpec == TInit /\ [][TNext]_<<pending, l>>
=============================================================================
