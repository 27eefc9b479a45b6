--------------------------- MODULE PeerTableTrace ---------------------------
EXTENDS PeerTable, TraceKit

VARIABLE refused

TInit == PInit /\ refused = {} /\ l = 1

View == /\ \A i \in Locals, p \in Peers : Ev.view.table[i][p] = known'[<<i, p>>]
        /\ Ev.view.count = Cardinality({k \in Locals \X Peers : known'[k] # 0})
        /\ ~Ev.view.foreign

TReset == /\ Is("Reset")
          /\ known' = [k \in Locals \X Peers |-> 0] /\ chan' = {}
          /\ refused' = Range(Ev.refused)
TAdd == Is("Add") /\ Add(Ev.l, Ev.p, Ev.a, Ev.ctx, refused, Ev.res) /\ View /\ UNCHANGED refused
TRemove == Is("Remove") /\ Remove(Ev.l, Ev.p, Ev.res) /\ View /\ UNCHANGED refused
TPacket == /\ Is("Packet") /\ Ev.delivered \in BOOLEAN
           /\ Packet(Ev.l, Ev.p, Ev.a, Ev.list \in {"good", "eternal"}, refused, Ev.delivered)
           /\ View /\ UNCHANGED refused
TChannel == Is("Channel") /\ Ev.delivered \in BOOLEAN /\ Channel(Ev.l, Ev.p, Ev.delivered) /\ View /\ UNCHANGED refused
TEstablish == Is("Establish") /\ Establish(Ev.l, Ev.p, Ev.confirmed) /\ View /\ UNCHANGED refused
TSend == /\ Is("Send") /\ Send(Ev.l, Ev.p, Ev.ok, Ev.kind, Ev.to)
         /\ Ev.count = (IF Ev.ok THEN 1 ELSE 0) /\ Ev.sound
         /\ View /\ UNCHANGED refused
\* matching addresses to peers: with several peers at an address any of them
TMatch == /\ Is("Match")
          /\ LET at(a) == {p \in Peers : known[<<Ev.l, p>>] = a} IN
             /\ \A i \in 1..Len(Ev.res) : Ev.res[i][2] \in at(Ev.res[i][1])
             /\ {Ev.res[i][1] : i \in 1..Len(Ev.res)} = {a \in 1..5 : at(a) # {}}
             /\ IsInjective(Ev.res)
          /\ UNCHANGED <<known, chan, refused>> /\ View

TNext == TReset \/ TAdd \/ TRemove \/ TPacket \/ TChannel \/ TEstablish \/ TSend \/ TMatch
TSpec == TInit /\ [][TNext]_<<known, chan, refused, l>>
=============================================================================
