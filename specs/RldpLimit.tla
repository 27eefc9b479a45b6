------------------------------ MODULE RldpLimit -----------------------------
(* R03. How many RLDP queries a node has in progress.                        *)
EXTENDS Integers, FiniteSets, Sequences

CONSTANT Peers

\* waiting and running: queries (<<number, peer>>)
To(qs, p) == {q \in qs : q[2] = p}

(* Queries are asked, some end or are cancelled, others start                *)
Good(max, waiting, running) ==
    \A p \in Peers :
        /\ Cardinality(To(running, p)) <= max
        \* nobody waits without need
        /\ To(waiting, p) # {} => Cardinality(To(running, p)) = max

Step(max, waiting, running, asked, ended, failed, cancelled, started, waiting1, running1) ==
    LET all == waiting \cup asked
        run == (running \cup started) \ (ended \cup cancelled)
    IN /\ asked \cap (waiting \cup running) = {}
       /\ started \subseteq all
       \* (a query that cannot be sent ends without anything being sent)
       /\ ended \subseteq running \cup started
       /\ failed \subseteq all \cup running
       /\ cancelled \subseteq all \cup running
       /\ waiting1 = all \ (started \cup cancelled \cup failed)
       /\ running1 = run \ failed
       /\ Good(max, waiting1, running1)
=============================================================================
