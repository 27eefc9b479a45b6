----------------------------- MODULE AdnlDropMC -----------------------------
(* A12: when a channel is dropped. Queries that fail, what is received       *)
(* through the channel, new channels and time, in every short order.         *)
EXTENDS Adnl, ScriptKit

CONSTANTS Depth, Writes, Pairs
VARIABLES st, o, now, goal, queries, ghost, key, script
vars == <<st, o, now, goal, queries, ghost, key, script>>

R == 3
\* a pair with a ready channel
Chan(id) == [id |-> id, pk |-> id, mk |-> 100, date |-> 1, ready |-> TRUE, drop |-> 0]
Fresh0 == [NoPair EXCEPT !.addr = 1, !.loc = 1, !.src = 1, !.key = 100, !.chan = Chan(1), !.made = 1]
\* ghost: armed - time of the first failure since something was received through the
\* channel, 0 if none; drops - how often the channel was dropped
Init == /\ o = [history |-> FALSE, required |-> TRUE, tolerance |-> 60, reset |-> R, start |-> 1]
        /\ now = 10 /\ goal = 10 /\ queries = {} /\ key = 1
        /\ st = [k \in Pairs |-> Fresh0]
        /\ ghost = [k \in Pairs |-> [armed |-> 0, bad |-> FALSE]]
        /\ script = <<>>
Log(e) == script' = Append(script, e)

\* queries fail on the way, one after another
Due == {q \in queries : q.at <= goal}
Fail ==
    /\ Due # {}
    /\ LET q == CHOOSE x \in Due : \A y \in Due : x.at < y.at \/ (x.at = y.at /\ x.n <= y.n)
           k == q.k
           s == QueryFailed(o, st[k], q.chan, 100 + key, q.at)
           mine == HasChan(st[k]) /\ st[k].chan.id = q.chan
           dropped == HasChan(st[k]) /\ ~HasChan(s)
           \* as the property says
           must == mine /\ ghost[k].armed # 0 /\ q.at - ghost[k].armed > R
       IN
       /\ queries' = queries \ {q}
       /\ now' = Max(now, q.at)
       /\ st' = [st EXCEPT ![k] = s]
       /\ ghost' = [ghost EXCEPT ![k] =
            [armed |-> IF dropped THEN 0 ELSE IF mine /\ @.armed = 0 THEN q.at ELSE @.armed,
             bad |-> @.bad \/ (dropped # must)]]
       /\ key' = key + 1
    /\ UNCHANGED <<o, goal, script>>
Arrive == Due = {} /\ now < goal /\ now' = goal /\ UNCHANGED <<st, o, goal, queries, ghost, key, script>>
Idle == Due = {} /\ now = goal

DoQuery(k, d) == /\ Cardinality(queries) < 3
               /\ queries' = queries \cup {[k |-> k, at |-> now + d, chan |-> st[k].chan.id, n |-> Len(script)]}
               /\ Log([op |-> "Query", l |-> k, d |-> d])
               /\ UNCHANGED <<st, o, now, goal, ghost, key>>
Pass(d) == /\ goal' = now + d /\ Log([op |-> "Pass", d |-> d])
           /\ UNCHANGED <<st, o, now, queries, ghost, key>>
Hear(k, good, tr) ==
    /\ HasChan(st[k])
    /\ LET pkt == [tr |-> tr, mk |-> st[k].chan.mk, pk |-> st[k].chan.pk, altered |-> ~good]
           s == IF Opens(st[k], pkt) THEN Alive(st[k], pkt) ELSE st[k] IN
       /\ st' = [st EXCEPT ![k] = s]
       /\ ghost' = IF good /\ tr # "hs" THEN [ghost EXCEPT ![k].armed = 0] ELSE ghost
    /\ Log([op |-> "Hear", l |-> k, good |-> good, tr |-> tr])
    /\ UNCHANGED <<o, now, goal, queries, key>>
\* a new channel of the peer in place of the old one
Replace(k) == /\ st' = [st EXCEPT ![k] = Offer([@ EXCEPT !.key = 100], key + 200, now, TRUE)]
              /\ key' = key + 1
              /\ ghost' = IF st'[k].chan.id # st[k].chan.id THEN [ghost EXCEPT ![k].armed = 0] ELSE ghost
              /\ Log([op |-> "Replace", l |-> k])
              /\ UNCHANGED <<o, now, goal, queries>>
Next == \/ Fail \/ Arrive
        \/ /\ Idle /\ Len(script) < Depth
           /\ \/ \E d \in {1, R - 1, R, R + 1} : Pass(d)
              \/ \E k \in Pairs : \/ \E d \in {1, R, R + 2} : DoQuery(k, d)
                                  \/ \E g \in BOOLEAN, tr \in {"ord", "hs"} : Hear(k, g, tr)
                                  \/ Replace(k)
Spec == Init /\ [][Next]_vars

\* dropped exactly when the property says so
DroppedExactly == \A k \in Pairs : ~ghost[k].bad
\* the timer of the implementation says the same as the history
Timer == \A k \in Pairs : HasChan(st[k]) =>
    st[k].chan.drop = (IF ghost[k].armed = 0 THEN 0 ELSE ghost[k].armed + R)
Emit == Writes /\ Len(script) = Depth /\ Idle => EmitScript(script)
=============================================================================
