--------------------------- MODULE RldpReceiverMC ---------------------------
(* Every sequence of chunks at a receiver of a message of two parts.         *)
EXTENDS RldpTransfer, ScriptKit

CONSTANTS Depth, Esis

VARIABLES r, script, last,
    true  \* ghost: symbols of each part received while nothing was complete

\* two parts of one and two symbols
Lens == <<16, 8>>
Total == 24
Limit == 30
Par(p) == <<Lens[IF p > 1 THEN 2 ELSE p + 1], 8, Lens[IF p > 1 THEN 2 ELSE p + 1] \div 8>>
Chunks == {[part |-> p, total |-> Total, par |-> Par(p), esi |-> e, good |-> TRUE,
            k |-> <<"same", "same">>] : p \in 0..2, e \in Esis}
    \cup {[part |-> p, total |-> t, par |-> Par(p), esi |-> 0, good |-> TRUE,
            k |-> <<IF t > Limit THEN "big" ELSE "other", "same">>] : p \in 0..1, t \in {Total + 1, Limit + 1}}
    \cup {[part |-> p, total |-> Total, par |-> <<Par(p)[1] + 1, 8, Par(p)[3]>>, esi |-> 0, good |-> TRUE,
            k |-> <<"same", "other">>] : p \in 0..1}

vars == <<r, script, last, true>>
Init == r = NewReceiver(0) /\ script = <<>> /\ last = <<>> /\ true = [p \in 0..2 |-> {}]
Next == /\ Len(script) < Depth
        /\ \E c \in Chunks : \E o \in Receive(r, c, Limit) :
             /\ r' = o.r /\ last' = o.replies
             /\ script' = Append(script, [part |-> c.part, esi |-> c.esi, total |-> c.k[1], par |-> c.k[2]])
             /\ true' = [true EXCEPT ![c.part] = IF c.part = r.part /\ c.k = <<"same", "same">> THEN @ \cup {c.esi} ELSE @]
Spec == Init /\ [][Next]_vars
View == <<r, script, true>>

TypeOK == /\ r.part \in 0..1 /\ r.have \in 0..Total /\ r.cnt \in 0..Every - 1
          /\ r.total \in {-1, Total, Total + 1}
\* never more than announced, and all of it at the end
Bounded == r.total # -1 => r.have <= r.total /\ r.total <= Limit
Whole == r.done => r.have = r.total
\* in order: a part is complete only with enough symbols of it
InOrder == (r.total = Total /\ (r.part > 0 \/ r.done)) => Cardinality(true[0]) >= 2 \/ r.params # Par(0)
\* a report of completeness belongs to a part that is complete
Honest == \A i \in 1..Len(last) : last[i][1] = "Complete" => r.done \/ last[i][2] < r.part

Emit == Len(script) = Depth => EmitScript(script)
=============================================================================
