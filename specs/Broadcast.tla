----------------------------- MODULE Broadcast ------------------------------
(* What a member of an overlay does with the packets of broadcasts: what it  *)
(* hands out to the application, what it passes on, and what it remembers.   *)
(*                                                                           *)
(* A packet:                                                                 *)
(*   [kind |-> "ord", id, date, sound]                                       *)
(*     id: content, source (if it matters), flags and date                   *)
(*   [kind |-> "fec", c, src, par, esi, date, sound, fits, enough, genuine]  *)
(*     c: announced content, src: announced source, par: FEC parameters,     *)
(*     esi: number of the symbol                                             *)
(*     sound: signed by the source as it is, fits: there can be such data    *)
(*     enough: the symbols accepted so far and this one can be decoded       *)
(*     genuine: and this gives the announced content                         *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Slack  \* how much earlier a transfer may count as idle

Min(a, b) == IF a < b THEN a ELSE b
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Drop(f, X) == [y \in DOMAIN f \ X |-> f[y]]

\* ord: ordinary broadcasts, own or received, fec: contents of FEC broadcasts,
\* own or received (with the time when it happened),
\* tr: packets of FEC broadcasts of <<content, source>>
Nothing == [ord |-> <<>>, fec |-> <<>>, tr |-> <<>>]

Outdated(now, t, date) == date + t < now \/ date > now + t

\* s: next state, relay: the packet is passed on, give: a broadcast is handed out
Ignore(s) == [s |-> s, relay |-> FALSE, give |-> FALSE]

ReceiveOrd(s, now, p) ==
    IF p.id \in DOMAIN s.ord THEN Ignore(s)
    ELSE [s |-> [s EXCEPT !.ord = Put(@, p.id, now)], relay |-> TRUE, give |-> TRUE]

\* (a transfer ends when it was decoded, or when nothing came for some time)
Transfer(s, x, p) ==
    IF x \in DOMAIN s.tr THEN s.tr[x]
    ELSE [par |-> p.par, esis |-> {}, done |-> FALSE, at |-> 0, end |-> -1]
Idle(tr, now, t) == tr.end = -1 /\ now >= tr.at + t - Slack
Alive(tr, now, t) == [tr EXCEPT !.end = IF Idle(tr, now, t) THEN tr.at + t - Slack ELSE @,
                                !.at = IF tr.end = -1 THEN now ELSE @]
ReceiveFec(s, now, t, p) ==
    LET x == <<p.c, p.src>>
        known == x \in DOMAIN s.tr
        tr == IF known THEN Alive(s.tr[x], now, t) ELSE [Transfer(s, x, p) EXCEPT !.at = now]
        ends == ~tr.done /\ p.enough
        gives == ends /\ p.genuine /\ p.c \notin DOMAIN s.fec
    IN
    IF ~known /\ (p.c \in DOMAIN s.fec \/ ~p.fits) THEN Ignore(s)
    ELSE IF ~p.fits \/ tr.par # p.par \/ p.esi \in tr.esis THEN
        Ignore(IF known THEN [s EXCEPT !.tr[x] = tr] ELSE s)
    ELSE [s |-> [s EXCEPT !.tr = Put(@, x, [tr EXCEPT !.esis = @ \cup {p.esi},
                                                      !.done = @ \/ ends,
                                                      !.end = IF @ = -1 /\ ends THEN now ELSE @]),
                          !.fec = IF gives THEN Put(@, p.c, now) ELSE @],
          relay |-> TRUE, give |-> gives]

Receive(s, now, t, p) ==
    IF Outdated(now, t, p.date) \/ ~p.sound THEN Ignore(s)
    ELSE IF p.kind = "ord" THEN ReceiveOrd(s, now, p) ELSE ReceiveFec(s, now, t, p)

\* own broadcasts: refused when there was the same one
CanSend(s, b) == IF b.kind = "ord" THEN b.id \notin DOMAIN s.ord ELSE b.c \notin DOMAIN s.fec
Send(s, now, b) ==
    IF b.kind = "ord" THEN [s EXCEPT !.ord = Put(@, b.id, now)] ELSE [s EXCEPT !.fec = Put(@, b.c, now)]

\* --- the log -------------------------------------------------------------
\* what may be forgotten: a broadcast all packets of which are outdated,
\* packets of a broadcast which does not continue
Keep(t) == 2 * t
End(tr, t) == IF tr.end = -1 THEN tr.at + t - Slack ELSE tr.end
Old(s, now, t, keep) ==
    [ord |-> {x \in DOMAIN s.ord : now > s.ord[x] + keep},
     fec |-> {x \in DOMAIN s.fec : now > s.fec[x] + keep},
     tr |-> {x \in DOMAIN s.tr : now > End(s.tr[x], t) + keep}]
Forget(s, X) == [ord |-> Drop(s.ord, X.ord), fec |-> Drop(s.fec, X.fec), tr |-> Drop(s.tr, X.tr)]
Size(s) == Cardinality(DOMAIN s.ord) + Cardinality(DOMAIN s.fec) + Cardinality(DOMAIN s.tr)

\* --- recipients ----------------------------------------------------------
\* to: sequence of recipients of a packet
Chosen(to, among, amount) ==
    /\ \A i \in 1..Len(to) : to[i] \in among
    /\ \A i, j \in 1..Len(to) : i # j => to[i] # to[j]
    /\ Len(to) = Min(amount, Cardinality(among))
=============================================================================
