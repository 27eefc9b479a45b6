----------------------------- MODULE RldpQueryMC ----------------------------
(* R01, R03. One RLDP query over a network that loses, repeats, reorders and *)
(* delays: the tables of both sides, their retention times, and why the      *)
(* handler runs at most once and nothing is left at the end.                 *)
(*                                                                           *)
(* A message is one packet here: Q the query, A the answer, QC and AC the    *)
(* reports that they are complete. (Assembly: RldpTransfer.)                 *)
EXTENDS Integers, FiniteSets

CONSTANTS
    Life,    \* ticks for which both sides keep entries of finished transfers
    Give,    \* ticks without news after which a sender gives up
    MaxAge,  \* ticks for which packets live in the network
    MaxNet,  \* packets in the network
    End      \* ticks of a run

VARIABLES
    c,    \* asker: out, inc: entries, res: result, idle: ticks without news, timer
    s,    \* other side: inc, out: entries, calls of the handler, idle, timer
    x,    \* entry of a stray answer at the asker: timer or 0
    net,  \* packets <<kind, age>>
    now

vars == <<c, s, x, net, now>>

Init == /\ c = [out |-> "open", inc |-> "open", res |-> "no", idle |-> 0, timer |-> 0]
        /\ s = [inc |-> "gone", out |-> "gone", calls |-> 0, idle |-> 0, timer |-> 0]
        /\ x = 0 /\ net = {} /\ now = 0

Put(k) == IF Cardinality(net) < MaxNet THEN {net \cup {<<k, 0>>}, net} ELSE {net}

SendQ == /\ c.out = "open" /\ c.res = "no" /\ Cardinality(net) < MaxNet
         /\ net' = net \cup {<<"Q", 0>>} /\ UNCHANGED <<c, s, x, now>>
SendA == /\ s.out = "open" /\ Cardinality(net) < MaxNet
         /\ net' = net \cup {<<"A", 0>>} /\ UNCHANGED <<c, s, x, now>>

Deliver ==
    \E p \in net :
        \/ /\ p[1] = "Q"
           /\ IF s.inc = "gone"
              THEN \E reply \in {"open", "gone"} :
                     s' = [s EXCEPT !.inc = "done", !.calls = @ + 1, !.out = reply, !.idle = 0,
                                    !.timer = IF reply = "gone" THEN Life ELSE 0]
              ELSE UNCHANGED s
           /\ net' \in Put("QC") /\ UNCHANGED <<c, x, now>>
        \/ /\ p[1] = "QC" /\ c' = IF c.out = "open" THEN [c EXCEPT !.out = "done", !.idle = 0] ELSE c
           /\ net' = net /\ UNCHANGED <<s, x, now>>
        \/ /\ p[1] = "A"
           /\ c' = IF c.inc = "open"
                   THEN [c EXCEPT !.inc = "done", !.out = "done", !.res = "answer", !.timer = Life] ELSE c
           \* an unknown transfer is taken for a query; it is none
           /\ x' = IF c.inc = "gone" /\ x = 0 THEN Life ELSE x
           /\ net' \in Put("AC") /\ UNCHANGED <<s, now>>
        \/ /\ p[1] = "AC" /\ s' = IF s.out = "open" THEN [s EXCEPT !.out = "done", !.timer = Life] ELSE s
           /\ net' = net /\ UNCHANGED <<c, x, now>>
Lose == \E p \in net : net' = net \ {p} /\ UNCHANGED <<c, s, x, now>>

Down(t) == IF t = 0 THEN 0 ELSE t - 1
Tick ==
    /\ now < End /\ now' = now + 1
    /\ c' = (IF c.res = "no" /\ c.idle + 1 >= Give
             THEN [c EXCEPT !.res = "none", !.inc = "done", !.out = "done", !.timer = Life]
             ELSE IF c.res = "no" THEN [c EXCEPT !.idle = @ + 1]
             ELSE IF c.timer = 1 THEN [c EXCEPT !.timer = 0, !.inc = "gone", !.out = "gone"]
             ELSE [c EXCEPT !.timer = Down(@)])
    /\ s' = (IF s.out = "open" /\ s.idle + 1 >= Give
             THEN [s EXCEPT !.out = "done", !.timer = Life]
             ELSE IF s.out = "open" THEN [s EXCEPT !.idle = @ + 1]
             ELSE IF s.timer = 1 THEN [s EXCEPT !.timer = 0, !.inc = "gone", !.out = "gone"]
             ELSE [s EXCEPT !.timer = Down(@)])
    /\ x' = Down(x)
    /\ net' = {<<p[1], p[2] + 1>> : p \in {q \in net : q[2] < MaxAge}}

Next == SendQ \/ SendA \/ Deliver \/ Lose \/ Tick
Spec == Init /\ [][Next]_vars

AtMostOnce == s.calls <= 1
Genuine == c.res = "answer" => s.calls >= 1
\* the asker knows within two silent periods
Known == now >= 2 * Give => c.res # "no"
\* and after the retention time of the last of them all entries are gone
Last == 2 * Give + MaxAge + Give
Empty == now >= Last + MaxAge + 2 * Life =>
         c.inc = "gone" /\ c.out = "gone" /\ s.inc = "gone" /\ s.out = "gone" /\ x = 0
=============================================================================
