--------------------------- MODULE BroadcastTrace ---------------------------
(* O01, O02, O03. Packets that arrive at a member of an overlay, own         *)
(* broadcasts, and what the application and the neighbours see of them.      *)
EXTENDS Broadcast, TraceKit

CONSTANTS MoreThanEnough  \* so many symbols above the least number are always enough

VARIABLES conf, s,
    lies  \* transfers with symbols that are not those of the announced content
vars == <<conf, s, lies, l>>

TInit == conf = <<>> /\ s = Nothing /\ lies = {} /\ l = 1
TReset == Is("Reset") /\ conf' = Ev.conf /\ s' = Nothing /\ lies' = {}

Peers == 1..conf.n

\* the log may have been collected
Forgotten(now, p) ==
    LET o == Old(s, now, conf.timeout, Keep(conf.timeout)) IN
    [ord : SUBSET (IF p.kind = "ord" THEN o.ord \cap {p.id} ELSE {}),
     fec : SUBSET (IF p.kind = "fec" THEN o.fec \cap {p.c} ELSE {}),
     tr : SUBSET (IF p.kind = "fec" THEN o.tr \cap {<<p.c, p.src>>} ELSE {})]

\* whether the symbols are enough, as far as it is known
Enoughs(x, st, p) ==
    IF p.kind = "ord" THEN {FALSE} ELSE
    LET esis == {p.esi} \cup IF x \in DOMAIN st.tr THEN st.tr[x].esis ELSE {}
        few == Cardinality(esis) < p.k
        many == (\A e \in 0..p.k - 1 : e \in esis) \/ Cardinality(esis) >= p.k + MoreThanEnough
    IN IF x \in lies \/ p.lie THEN (IF few THEN {FALSE} ELSE BOOLEAN)
       ELSE IF few THEN {FALSE} ELSE IF many THEN {TRUE} ELSE BOOLEAN
Genuines(x, p) == IF p.kind = "fec" /\ (x \in lies \/ p.lie) THEN BOOLEAN ELSE {TRUE}

TRecv ==
    /\ Is("Recv")
    /\ UNCHANGED conf
    /\ LET p == Ev.p
           x == IF p.kind = "fec" THEN <<p.c, p.src>> ELSE <<>>
       IN \E X \in Forgotten(Ev.now, p) :
          LET st == Forget(s, X) IN
          \E enough \in Enoughs(x, st, p), genuine \in Genuines(x, p) :
          LET r == Receive(st, Ev.now, conf.timeout, p @@ [enough |-> enough, genuine |-> genuine])
              amount == IF p.kind = "ord" THEN conf.ordTarget ELSE conf.fecTarget
          IN
          /\ s' = r.s
          /\ lies' = IF r.relay /\ p.kind = "fec" /\ p.lie THEN lies \cup {x} ELSE lies
          /\ IF r.relay THEN Chosen(Ev.to, Peers \ {Ev.from}, amount) /\ Ev.intact
             ELSE Ev.to = <<>>
          /\ Ev.got = IF r.give THEN <<<<p.c, p.src>>>> ELSE <<>>

TOwn ==
    /\ Is("Own")
    /\ UNCHANGED <<conf, lies>>
    /\ LET b == Ev.b IN
       \E X \in Forgotten(Ev.now, b) :
       LET st == Forget(s, X) IN
       IF CanSend(st, b) THEN
           \* (it is sent for some time)
           /\ s' = Send(st, Ev.end, b)
           /\ Ev.accepted
           /\ IF Ev.explicit THEN Ev.to = Ev.among ELSE Chosen(Ev.to, Peers, conf.ownTarget)
           /\ Ev.recipients = Len(Ev.to)
           \* everything that was sent is signed and belongs to the broadcast, it is
           \* the same for everybody, and it is enough to receive the broadcast
           /\ Ev.to # <<>> => Ev.sound /\ Ev.same /\ Ev.suffice
           /\ Ev.got = <<>>
       ELSE
           /\ s' = st
           /\ ~Ev.accepted /\ Ev.to = <<>> /\ Ev.recipients = 0 /\ Ev.got = <<>>

\* after a long time only a part of the log is left, nothing happens by itself
TIdle ==
    /\ Is("Idle")
    /\ Ev.len <= conf.maxLog
    /\ Ev.got = <<>> /\ Ev.to = <<>>
    /\ UNCHANGED <<conf, s, lies>>
TQuiet ==
    /\ Is("Quiet")
    /\ Ev.got = <<>> /\ Ev.to = <<>>
    /\ UNCHANGED <<conf, s, lies>>

\* many copies of sound packets, each from several peers, all at the same time
Pairs(ps) == {<<p.c, p.src>> : p \in ps}
TBurst ==
    /\ Is("Burst")
    /\ Ev.intact
    /\ LET ps == Range(Ev.ps)
           ord == {p \in ps : p.kind = "ord"}
           fec == {p \in ps : p.kind = "fec"}
           amount(p) == Min(IF p.kind = "ord" THEN conf.ordTarget ELSE conf.fecTarget, conf.n - 1)
           got == Range(Ev.got)
       IN
       \* everything is given exactly once, with one of its sources
       /\ IsInjective(Ev.got)
       /\ \A x \in got : x \in Pairs(ps)
       /\ \A p \in ps : Cardinality({x \in got : x[1] = p.c}) = 1
       \* and passed on at most once (a second source may come too late)
       /\ \A i \in 1..Len(Ev.ps) :
             /\ IsInjective(Ev.to[i])
             /\ Len(Ev.to[i]) \in {amount(Ev.ps[i])} \cup
                   (IF \E p \in fec : Ev.ps[i].kind = "fec" /\ p.c = Ev.ps[i].c /\ p.src # Ev.ps[i].src THEN {0} ELSE {})
       /\ ord # {}
    /\ UNCHANGED <<conf, s, lies>>

TNext == TBurst \/ TReset \/ TRecv \/ TOwn \/ TIdle \/ TQuiet
TSpec == TInit /\ [][TNext]_vars
=============================================================================
