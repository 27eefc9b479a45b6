----------------------------- MODULE ChannelsMC -----------------------------
(* A02: two nodes make channels over a network that loses, repeats, delays   *)
(* and reorders packets, while either of them resets the pair or restarts.   *)
EXTENDS Adnl, ScriptKit

CONSTANTS Depth, Faults, History, Writes, Known0
VARIABLES st, o, now, net, key, held, seq, faults, script, len
vars == <<st, o, now, net, key, held, seq, faults, script, len>>

Nodes == {1, 2}
Other(n) == 3 - n
Keyed(s, k) == IF s.key # 0 THEN s ELSE [s EXCEPT !.key = k]

Init == /\ now = 10 /\ net = {} /\ key = 1 /\ faults = 0 /\ script = <<>> /\ len = 0
        /\ o = [n \in Nodes |-> [history |-> History, required |-> TRUE, tolerance |-> 60, reset |-> 3, start |-> 9]]
        \* the nodes know the address of each other
        /\ st = [n \in Nodes |-> Keyed(NewPair(o[n], NoPair, 1), 100 * n)]
        /\ held = [n \in Nodes |-> {}]
        /\ seq = 0

(* What the other node gets of what a node has sent                          *)
Arrives(p) == [tr |-> p.tr, mk |-> p.pk, pk |-> p.mk, altered |-> FALSE, ver |-> -1,
               from |-> IF p.tr = "hs" THEN "full" ELSE "none", short |-> "none",
               sig |-> IF p.tr = "hs" THEN "good" ELSE "none", list |-> 1, lgood |-> TRUE,
               src |-> p.src, dst |-> p.dst, seqno |-> p.seqno, confirm |-> p.confirm, msgs |-> p.msgs]
\* node state and packet after sending m
Out(s, m, t) ==
    LET p == OutPacket(s, m, "ord", t)
        q == [tr |-> p.tr, mk |-> p.mk, pk |-> p.pk, src |-> p.src, dst |-> p.dst, msgs |-> p.msgs,
              seqno |-> s.sent[1] + 1, confirm |-> s.high[1]]
    IN [s |-> AfterOut(s, q), p |-> q]
\* receiving: the state, what is answered (a packet or none), whether it was accepted
In(n, s, opt, p, t, k) ==
    LET r == Check(opt, s, Arrives(p), t)
        s1 == Keyed(r.st, k) IN
    IF r.ok THEN [s |-> IF Len(p.msgs) = 2 THEN Handle(s1, p.msgs[1]) ELSE s1, out |-> <<>>, ok |-> TRUE]
    ELSE IF r.nop THEN LET x == Out(s1, Nop, t) IN [s |-> x.s, out |-> <<x.p>>, ok |-> FALSE]
    ELSE [s |-> s1, out |-> <<>>, ok |-> FALSE]

Log(e) == script' = (IF Writes THEN Append(script, e) ELSE script)
Hold(n, s) == held' = [held EXCEPT ![n] = IF HasChan(s) THEN @ \cup {<<s.chan.mk, s.chan.pk>>} ELSE @]

Send(n) ==
    LET x == Out(st[n], Custom(1), now) IN
    /\ st' = [st EXCEPT ![n] = x.s]
    /\ net' = net \cup {[to |-> Other(n), p |-> x.p, i |-> seq + 1]} /\ seq' = seq + 1
    /\ Log([op |-> "Send", n |-> n])
    /\ UNCHANGED <<o, now, key, held, faults>>
Deliver == \E d \in net :
    LET x == In(d.to, st[d.to], o[d.to], d.p, now, 100 * d.to + key) IN
    /\ st' = [st EXCEPT ![d.to] = x.s] /\ key' = key + 1
    /\ net' = net \cup (IF x.out = <<>> THEN {} ELSE {[to |-> Other(d.to), p |-> x.out[1], i |-> seq + 1]})
    /\ seq' = seq + 1
    /\ Hold(d.to, x.s)
    /\ Log([op |-> "Deliver", i |-> d.i])
    /\ st' # st \/ net' # net
    /\ UNCHANGED <<o, now, faults>>
\* a channel is lost: its queries fail for the timeout
Reset(n) ==
    /\ HasChan(st[n]) /\ faults < Faults
    /\ st' = [st EXCEPT ![n] = ResetPair(@, 100 * n + key)]
    /\ key' = key + 1 /\ now' = now + 4 /\ faults' = faults + 1
    /\ Log([op |-> "Reset", n |-> n])
    /\ UNCHANGED <<o, net, held, seq>>
Restart(n) ==
    /\ faults < Faults
    /\ now' = now + 1 /\ key' = key + 1 /\ faults' = faults + 1
    /\ o' = [o EXCEPT ![n].start = now']
    /\ st' = [st EXCEPT ![n] = IF Known0 THEN Keyed(NewPair(o'[n], NoPair, 1), 100 * n + key) ELSE NoPair]
    /\ Log([op |-> "Restart", n |-> n])
    /\ UNCHANGED <<net, held, seq>>
Next == len < Depth /\ len' = len + 1 /\
        ((\E n \in Nodes : (Known(st[n]) /\ Send(n)) \/ Reset(n) \/ Restart(n)) \/ Deliver)
Spec == Init /\ [][Next]_vars

(* A channel counts as ready only when the other node has (had) the same     *)
Agreed == \A n \in Nodes : st[n].chan.ready => <<st[n].chan.pk, st[n].chan.mk>> \in held[Other(n)]
(* and has it still, unless it gave the key up                               *)
Opens2 == \A n \in Nodes : st[n].chan.ready /\ st[Other(n)].key = st[n].chan.pk =>
    st[Other(n)].chan.mk = st[n].chan.pk /\ st[Other(n)].chan.pk = st[n].chan.mk

(* The network delivers again and time passes: both nodes send now and then. *)
(* ok: whether the last messages of both were delivered                      *)
RECURSIVE Exchange(_, _, _, _)
Exchange(s, to, p, t) ==
    LET x == In(to, s[to], o[to], p, t, 100 * to + 50 + t)
        s1 == [s EXCEPT ![to] = x.s] IN
    IF x.out = <<>> THEN [s |-> s1, ok |-> x.ok]
    ELSE [s |-> Exchange(s1, Other(to), x.out[1], t).s, ok |-> x.ok]
RECURSIVE Heal(_, _, _, _)
Heal(s, ns, t, res) ==
    IF ns = <<>> THEN res
    ELSE LET n == Head(ns)
             x == Out(s[n], Custom(1), t)
             y == Exchange([s EXCEPT ![n] = x.s], Other(n), x.p, t)
         IN IF Known(s[n]) THEN Heal(y.s, Tail(ns), t + 1, Append(res, y.ok)) ELSE Heal(s, Tail(ns), t + 1, Append(res, FALSE))
(* At the latest in the third round. With packet histories the numbers of an  *)
(* earlier incarnation may have to be passed first.                          *)
Rounds == 3 + (IF History THEN Max(Max(st[1].high[1], st[2].high[1]), Max(st[1].sent[1], st[2].sent[1])) ELSE 0)
RECURSIVE Turns(_, _)
Turns(first, k) == IF k = 0 THEN <<>> ELSE <<first, Other(first)>> \o Turns(first, k - 1)
Heals == Known0 => \A first \in Nodes :
    LET r == Heal(st, Turns(first, Rounds + 1), now + 1, <<>>) IN r[Len(r)] /\ r[Len(r) - 1]
Emit == Writes /\ len = Depth => EmitScript(script)
=============================================================================
