---------------------------- MODULE AdnlPairsMC -----------------------------
(* A03: identities of one node that talk to the same peer are kept apart.    *)
EXTENDS Adnl, ScriptKit

CONSTANTS Locals, Depth, Writes
VARIABLES st, o, now, key, script
vars == <<st, o, now, key, script>>

Init == /\ o = [history |-> TRUE, required |-> TRUE, tolerance |-> 60, reset |-> 3, start |-> 1]
        /\ now = 10 /\ key = 1 /\ script = <<>>
        /\ st = [k \in Locals |-> NoPair]
Log(op, k) == script' = Append(script, [op |-> op, l |-> k])

\* our key is made with the pair
Keyed(s) == IF s.key # 0 THEN s ELSE [s EXCEPT !.key = 100 + key]
Handshake(k, m) ==
    LET pkt == [tr |-> "hs", mk |-> 0, pk |-> 0, altered |-> FALSE, ver |-> -1, from |-> "full",
                short |-> "none", sig |-> "good", list |-> 1, lgood |-> TRUE, src |-> 5, dst |-> 0,
                seqno |-> now, confirm |-> 0, msgs |-> <<m>>]
        r == Check(o, st[k], pkt, now) IN
    [st EXCEPT ![k] = IF r.ok THEN Handle(Keyed(r.st), m) ELSE r.st]
Tick == now' = now + 1 /\ key' = key + 1
Hello(k) == st' = Handshake(k, Nop) /\ Log("Hello", k)
DoOffer(k) == st' = Handshake(k, Create(200 + key, now)) /\ Log("Offer", k)
Establish(k) == LET s == Handshake(k, Create(200 + key, now)) IN
    st' = [s EXCEPT ![k].chan.ready = TRUE] /\ Log("Establish", k)
Chan(k) == /\ HasChan(st[k])
           /\ LET pkt == [tr |-> "ord", mk |-> st[k].chan.mk, pk |-> st[k].chan.pk, altered |-> FALSE, ver |-> -1,
                          from |-> "none", short |-> "none", sig |-> "none", list |-> 0, lgood |-> TRUE,
                          src |-> -1, dst |-> -1, seqno |-> now, confirm |-> 0, msgs |-> <<Custom(1)>>] IN
              st' = [st EXCEPT ![k] = Check(o, @, pkt, now).st]
           /\ Log("Chan", k)
Send(k) == /\ st' = IF Known(st[k]) THEN [st EXCEPT ![k].sent[1] = @ + 1] ELSE st
           /\ Log("Send", k)
Remove(k) == st' = [st EXCEPT ![k] = Removed(@)] /\ Log("Remove", k)
Add(k) == st' = [st EXCEPT ![k] = IF Known(@) THEN [@ EXCEPT !.addr = 2] ELSE NewPair(o, @, 2)] /\ Log("Add", k)
Reset(k) == /\ HasChan(st[k]) /\ st' = [st EXCEPT ![k] = ResetPair(@, 0)] /\ Log("Reset", k)
Next == Len(script) < Depth /\ Tick /\ UNCHANGED o /\
        \E k \in Locals : \/ Hello(k) \/ DoOffer(k) \/ Establish(k) \/ Chan(k) \/ Send(k)
                          \/ Remove(k) \/ Add(k) \/ Reset(k)
Spec == Init /\ [][Next]_vars

Apart == [][\A k \in Locals : script'[Len(script')].l # k => st'[k] = st[k]]_vars
\* no two pairs ever have a key of ours in common, so a channel of one is of no use for another
OwnKeys == \A a, b \in Locals : a # b /\ st[a].key # 0 => st[a].key # st[b].key
ChannelOfKnown == \A k \in Locals : HasChan(st[k]) => Known(st[k]) /\ st[k].chan.mk = st[k].key
Emit == Writes /\ Len(script) = Depth => EmitScript(script)
=============================================================================
