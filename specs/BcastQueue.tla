----------------------------- MODULE BcastQueue -----------------------------
(* O05. The queue of received broadcasts as its users see it.                *)
EXTENDS Integers, Sequences, FiniteSets

\* queue: received, not yet handed out; waiting: consumers in the middle of a wait
Empty == [queue |-> <<>>, waiting |-> {}]

Push(s, v) == [s EXCEPT !.queue = Append(@, v)]
\* a wait of c is continued and it is over / it is not
CanGet(s, v) == s.queue # <<>> /\ Head(s.queue) = v
Get(s, c) == [queue |-> Tail(s.queue), waiting |-> s.waiting \ {c}]
Wait(s, c) == [s EXCEPT !.waiting = @ \cup {c}]
Cancel(s, c) == [s EXCEPT !.waiting = @ \ {c}]

\* when nothing is going on: somebody who waits was told if there is something
Told(s, woken) == s.queue # <<>> /\ s.waiting # {} => s.waiting \cap woken # {}
=============================================================================
