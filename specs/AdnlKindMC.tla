----------------------------- MODULE AdnlKindMC -----------------------------
(* A13: the kind of channel of every packet. Messages, queries and answers   *)
(* of a node, what comes from the peer by each kind of channel, new channels *)
(* and new incarnations of the peer, in every short order.                   *)
EXTENDS Adnl, ScriptKit

CONSTANTS Depth, Writes,
          Limit  \* 0: any number of attempts; else: given up after this many

VARIABLES st, o, todo, ghost, script
vars == <<st, o, todo, ghost, script>>

Chan(id) == [id |-> id, pk |-> id, mk |-> 100, date |-> 1, ready |-> TRUE, drop |-> 0]
\* ghost: tries - packets sent by the priority channel since the pair began or
\* something came by it; last - kind of the last packet, wanted - what was
\* wanted; heard - the peer uses the priority channel
Init == /\ \E h, p \in BOOLEAN : o = [history |-> h, required |-> TRUE, tolerance |-> 60, reset |-> 30, start |-> 1, priority |-> p]
        /\ st = [NoPair EXCEPT !.addr = 1, !.loc = 1, !.src = 1, !.key = 100, !.chan = Chan(1), !.made = 1]
        /\ todo = [n |-> 0, want |-> FALSE]
        /\ ghost = [tries |-> 0, heard |-> FALSE, last |-> "", want |-> FALSE, before |-> 0]
        /\ script = <<[op |-> "State", history |-> o.history, priority |-> o.priority]>>
Log(e) == script' = Append(script, e)

Allowed(want) ==
    IF Limit = 0 THEN Kinds(st, want)
    ELSE {IF want /\ (st.heard \/ st.sent[2] < Limit) THEN "pri" ELSE "ord"}
Emits == /\ todo.n > 0
         /\ \E kind \in Allowed(todo.want) :
              /\ st' = [st EXCEPT !.sent[Prio(kind)] = @ + 1]
              /\ ghost' = [ghost EXCEPT !.tries = IF kind = "pri" /\ ~ghost.heard THEN @ + 1 ELSE @,
                                        !.last = kind, !.want = todo.want, !.before = ghost.tries]
         /\ todo' = [todo EXCEPT !.n = @ - 1]
         /\ UNCHANGED <<o, script>>
Does(n, want, e) == todo' = [n |-> n, want |-> want] /\ Log(e)

Burst(n) == Does(n, o.priority, [op |-> "Send", n |-> n]) /\ UNCHANGED <<st, o, ghost>>
Ask == Does(1, o.priority, [op |-> "Query"]) /\ UNCHANGED <<st, o, ghost>>
\* a packet of the peer, perhaps with a query
Hear(tr, query, numbered, good) ==
    LET pkt == [tr |-> tr, mk |-> st.chan.mk, pk |-> st.chan.pk, altered |-> ~good, ver |-> -1, from |-> "none",
                short |-> "none", sig |-> "none", list |-> 0, lgood |-> TRUE, src |-> -1, dst |-> -1,
                seqno |-> IF numbered THEN 1 + Len(script) ELSE -1, confirm |-> 0, msgs |-> <<>>]
        r == Check(o, st, pkt, 10)
    IN /\ st' = r.st
       /\ ghost' = [ghost EXCEPT !.heard = @ \/ (good /\ tr = "pri" /\ numbered), !.last = ""]
       /\ Does(IF query /\ r.ok THEN 1 ELSE 0, tr = "pri", [op |-> "Hear", tr |-> tr, query |-> query, numbered |-> numbered, good |-> good])
       /\ UNCHANGED o
\* the peer starts anew and makes a channel
Renew == /\ st' = [Fresh(st) EXCEPT !.src = @ + 1, !.chan = Chan(@.id + 1), !.made = @ + 1]
         /\ ghost' = [ghost EXCEPT !.tries = 0, !.heard = FALSE, !.last = ""]
         /\ Log([op |-> "Renew"]) /\ UNCHANGED <<o, todo>>
\* another channel in place of the first
Replace == /\ st' = [st EXCEPT !.chan = Chan(@.id + 1), !.made = @ + 1]
           /\ ghost' = [ghost EXCEPT !.last = ""]
           /\ Log([op |-> "Replace"]) /\ UNCHANGED <<o, todo>>
Steps == \/ \E n \in {1, 4, 25} : Burst(n)
         \/ Ask \/ Renew \/ Replace
         \/ \E tr \in {"ord", "pri"}, q \in BOOLEAN : Hear(tr, q, TRUE, TRUE)
         \/ Hear("pri", TRUE, FALSE, TRUE) \/ Hear("pri", FALSE, TRUE, FALSE)
Next == Emits \/ (todo.n = 0 /\ Len(script) <= Depth /\ Steps)
Spec == Init /\ [][Next]_vars

\* a peer without priority channels gets only so many packets that it cannot read
FewLost == ghost.tries <= Many
\* the kind is what was wanted, unless the priority channel has been tried in vain
AsWanted == ghost.last # "" => CASE ~ghost.want -> ghost.last = "ord"
                                 [] ghost.heard \/ ghost.before < Few -> ghost.last = "pri"
                                 [] OTHER -> TRUE
HeardIsKnown == ghost.heard <=> st.heard
Emit == Writes /\ Len(script) = Depth + 1 /\ todo.n = 0 => EmitScript(script)
=============================================================================
