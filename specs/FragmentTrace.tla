--------------------------- MODULE FragmentTrace ----------------------------
EXTENDS Fragment, TraceKit

VARIABLE lens  \* length of each message of the scenario

TInit == FInit /\ lens = <<>> /\ l = 1

TReset == Is("Reset") /\ tr' = <<>> /\ lens' = (IF "lens" \in DOMAIN Ev THEN Ev.lens ELSE <<>>)

(* A packet with a part arrives at identity dst from src. delivered lists    *)
(* what the application got because of it: <<dst, src, message>> with        *)
(* message 0 for anything that no one sent.                                  *)
TPart == /\ Is("Part")
         /\ LET k == <<Ev.dst, Ev.src, Ev.m>>
                ok == Ev.good /\ Ev.total = lens[Ev.m] /\ Ev.off + Ev.len <= Ev.total
            IN
            /\ Ev.delivered \in {<<>>, <<k>>}
            /\ \E afterwards \in BOOLEAN :
                 Part(k, lens[Ev.m], <<Ev.off, Ev.len>>, IF Ev.total < 1000000 THEN Ev.total ELSE 0, ok, Ev.t, Ev.delivered # <<>>, afterwards)
            /\ Cardinality(DOMAIN tr') = Ev.live
         /\ UNCHANGED lens
TWait == /\ Is("Wait") /\ Ev.delivered = <<>>
         /\ \E gone \in SUBSET DOMAIN tr : Expire(Ev.t, gone)
         /\ Cardinality(DOMAIN tr') = Ev.live
         /\ UNCHANGED lens

\* The parts a real node makes of a message it sends. A message that fits one
\* packet is not split (parts = <<>>).
TSplit == /\ Is("Split")
          /\ Ev.whole \in {0, 1} /\ Ev.sound
          /\ IF Ev.whole = 1 THEN Ev.parts = <<>>
             ELSE Len(Ev.parts) > 0 /\ Tiles(Ev.parts, Ev.len)
          /\ \A i \in 1..Len(Ev.sizes) : Ev.sizes[i] <= 2048
          /\ UNCHANGED <<tr, lens>>

\* node to node: packets of one message delivered in any order, all but the
\* missing ones
TEndToEnd == /\ Is("EndToEnd")
             /\ Ev.delivered = (IF Ev.missing THEN 0 ELSE 1)
             /\ Ev.wrong = 0
             /\ UNCHANGED <<tr, lens>>
\* all packets of several messages handled at once by several threads
TBurst == /\ Is("Burst")
          /\ \A i \in 1..Len(Ev.delivered) : Ev.delivered[i] = 1
          /\ Ev.wrong = 0
          /\ UNCHANGED <<tr, lens>>

\* several threads add the last parts of many messages (times[i+1] messages
\* were delivered i times)
TRace == /\ Is("Race")
         /\ Ev.times = <<0, Ev.rounds, 0, 0>> /\ Ev.wrong = 0
         /\ UNCHANGED <<tr, lens>>

TNext == TRace \/ TReset \/ TPart \/ TWait \/ TSplit \/ TEndToEnd \/ TBurst
TSpec == TInit /\ [][TNext]_<<tr, lens, l>>
=============================================================================
