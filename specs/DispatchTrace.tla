--------------------------- MODULE DispatchTrace ----------------------------
EXTENDS Dispatch, TraceKit

TInit == DInit /\ l = 1
TReset == Is("Reset") /\ subs' = [k \in Kinds |-> <<>>] /\ running' = FALSE
TSubscribe == Is("Subscribe") /\ Subscribe(Ev.kind, Ev.acts, Ev.ok)
TStart == Is("StartNode") /\ StartNode(Ev.ok)
TPacket == Is("Packet") /\ Packet(Ev.items, Ev.calls, Ev.answers)
\* before the node starts nothing is handled
TEarly == /\ Is("Packet") /\ ~running /\ Ev.calls = <<>> /\ Ev.answers = <<>>
          /\ UNCHANGED <<subs, running>>

TNext == TReset \/ TSubscribe \/ TStart \/ TPacket \/ TEarly
TSpec == TInit /\ [][TNext]_<<subs, running, l>>
=============================================================================
