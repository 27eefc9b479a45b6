---------------------------- MODULE BroadcastMC -----------------------------
(* A member and everything that can be sent to it: packets of a genuine FEC  *)
(* broadcast (2 symbols are enough), forged ones, packets of another source  *)
(* about the same or another content, an ordinary broadcast; own broadcasts. *)
EXTENDS Broadcast, TLC, ScriptKit

CONSTANTS Depth, T, Start, Dates, What,
    Verify,   \* signatures are verified before the packet is used
    Shared,   \* one transfer per content, of the source that came first
    KeepFor   \* how long the log is kept

VARIABLES s, now, given, relayed, seen, script,
    dates  \* of the symbols

vars == <<s, now, given, relayed, seen, script, dates>>
view == <<s, now, given, relayed, seen, dates, Len(script)>>

Sources == {"g", "m"}
\* the other source also announces a content which its symbols do not have
Fec == [kind : {"fec"}, c : {1}, src : Sources, par : {1, 2}, esi : 0..2, date : Dates,
        sound : BOOLEAN, fits : {TRUE}, lie : BOOLEAN]
Sent(p) == /\ p.date = dates[p.esi]
           /\ (p.lie => p.src = "m")
           /\ (p.par = 2 => p.src = "m" \/ ~p.sound)
           /\ ("lie" \in What \/ ~p.lie)
           /\ ("par" \in What \/ p.par = 1)
           /\ ("other" \in What \/ p.src = "g")
           /\ ("forge" \in What \/ p.sound)
Ord == [kind : {"ord"}, id : {1}, date : Dates, sound : BOOLEAN]

Init == s = Nothing /\ now = Start /\ given = <<>> /\ relayed = <<>> /\ seen = {} /\ script = <<>>
        /\ dates \in [0..2 -> Dates]

Key(p) == IF Shared THEN <<p.c, "g">> ELSE <<p.c, p.src>>
Named(p) ==
    LET x == Key(p)
        t == IF x \in DOMAIN s.tr THEN s.tr[x].esis ELSE {} IN
    \* symbols that do not belong to the content spoil it
    p @@ [enough |-> Cardinality(t \cup {p.esi}) >= 2,
          genuine |-> \A q \in seen \cup {p} :
             q.kind = "fec" /\ (Shared \/ q.src = p.src) /\ q.par = p.par /\ (q.sound \/ ~Verify)
                => ~q.lie /\ q.sound]
\* the transfer had ended before
Late(p) == p.kind = "fec" /\ LET x == Key(p) IN
    x \in DOMAIN s.tr /\ (s.tr[x].end # -1 \/ Idle(s.tr[x], now, T))
Come(p) ==
    LET q == IF p.kind = "ord" THEN p
             ELSE [Named(p) EXCEPT !.sound = @ \/ ~Verify, !.src = IF Shared THEN "g" ELSE @]
        r == Receive(s, now, T, q)
        \* with a shared transfer another source is ignored
        shared == Shared /\ p.kind = "fec" /\ \E u \in seen : u.kind = "fec" /\ u.src # p.src
        o == IF shared THEN Ignore(s) ELSE r
    IN
    /\ s' = o.s
    /\ given' = IF o.give THEN Append(given, [p |-> p, at |-> now]) ELSE given
    /\ relayed' = IF o.relay THEN Append(relayed, [p |-> p, late |-> Late(p)]) ELSE relayed
    /\ seen' = IF Outdated(now, T, p.date) THEN seen ELSE seen \cup {p}
    /\ UNCHANGED <<now, dates>>

Packet == \/ "fec" \in What /\ \E p \in Fec : Sent(p) /\ Come(p)
              /\ script' = Append(script, <<"fec", p.src, p.par, p.esi, p.date - now, p.sound, p.lie>>)
          \/ "ord" \in What /\ \E p \in Ord : p.date = dates[0] /\ ("forge" \in What \/ p.sound) /\ Come(p)
              /\ script' = Append(script, <<"ord", p.id, p.date - now, p.sound>>)
Own == \E b \in {[kind |-> "ord", id |-> 1], [kind |-> "fec", c |-> 1]} :
    /\ (b.kind = "ord" => dates[0] = now)
    /\ (b.kind = "fec" => \A e \in 0..2 : dates[e] <= now)
    /\ \A i \in 1..Len(given) : given[i].at # -1  \* (not twice)
    /\ "own" \in What /\ b.kind \in What /\ CanSend(s, b)
    /\ s' = Send(s, now, b)
    /\ given' = Append(given, [p |-> b, at |-> -1])
    /\ script' = Append(script, <<"own", b.kind>>)
    /\ UNCHANGED <<now, relayed, seen, dates>>
Pass == /\ "pass" \in What
        /\ now' = now + 1
        /\ script' = Append(script, <<"pass">>)
        /\ UNCHANGED <<s, given, relayed, seen, dates>>
Collect == /\ "pass" \in What /\ now > Start
           /\ s' = Forget(s, Old(s, now, T, KeepFor * T))
           /\ s' # s
           /\ UNCHANGED <<now, given, relayed, seen, script, dates>>
Next == (Len(script) < Depth /\ (Packet \/ Own \/ Pass)) \/ Collect
Spec == Init /\ [][Next]_vars

Same(p, q) == p.kind = q.kind /\ IF p.kind = "ord" THEN p.id = q.id ELSE p.c = q.c

\* (packets which were outdated before do not come back)
\* (neither does an own one, which may follow a received one that is forgotten)
Once == \A j \in 1..Len(given) : \A i \in 1..j - 1 : Same(given[i].p, given[j].p) => given[j].at = -1
Authentic == \A i \in 1..Len(given) : given[i].at >= 0 => given[i].p.sound
Honest == \A i \in 1..Len(given) : given[i].at >= 0 /\ given[i].p.kind = "fec" => ~given[i].p.lie
Relayed == \A i \in 1..Len(relayed) :
    /\ relayed[i].p.sound
    /\ \A j \in 1..i - 1 : relayed[i].p = relayed[j].p => relayed[j].late
\* two symbols of the genuine broadcast are enough, whatever else has come
Arrives == Cardinality({p.esi : p \in {q \in seen : q.kind = "fec" /\ q.src = "g" /\ q.sound /\ q.par = 1}}) >= 2
              => \E i \in 1..Len(given) : given[i].p.kind = "fec"
OrdArrives == (\E p \in seen : p.kind = "ord" /\ p.sound)
              => \E i \in 1..Len(given) : given[i].p.kind = "ord"
Emit == Len(script) = Depth => EmitScript(script)
=============================================================================
