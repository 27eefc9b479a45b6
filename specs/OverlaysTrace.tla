---------------------------- MODULE OverlaysTrace ---------------------------
EXTENDS Overlays, TraceKit

VARIABLE s
vars == <<s, l>>

\* Seen in every step: broadcasts handed out, packets passed on (intact), calls of the
\* handlers, the overlays there are
Quiet == Ev.given = <<>> /\ Ev.relayed = <<>> /\ Ev.calls = <<>>
There(t) == Range(Ev.ids) = DOMAIN t.made /\ Range(Ev.found) = DOMAIN t.made

TInit == s = Start /\ l = 1
TReset == Is("Reset") /\ s' = Start
\* made: it was made now. same: otherwise it is the one which was there, with its key and members
TMake == /\ Is("Make")
         /\ Ev.made = (Ev.o \notin DOMAIN s.made) /\ Ev.same
         /\ s' = Make(s, Ev.o, Ev.kind, Range(Ev.neigh))
         /\ Ev.was = s'.made[Ev.o].kind
         /\ Quiet /\ There(s')
TSub == /\ Is("Sub")
        /\ Ev.done = (Ev.o \notin DOMAIN s.subs)
        /\ s' = Subscribe(s, Ev.o, Ev.h)
        /\ Quiet /\ There(s')
TJoin == Is("Join") /\ s' = Join(s, Ev.o, Ev.p) /\ Quiet /\ There(s')
SeenIs(x) == /\ Range(Ev.given) = x.given /\ IsInjective(Ev.given)
             /\ {<<r[1], r[2]>> : r \in Range(Ev.relayed)} = x.relayed /\ IsInjective(Ev.relayed)
             /\ \A r \in Range(Ev.relayed) : r[3]
             /\ Ev.calls = <<>>
TMessage ==
    /\ Is("Message")
    /\ CASE Ev.kind = "ord" -> s' = Ord(s, Ev.o, Ev.c) /\ SeenIs(OrdSeen(s, Ev.o, Ev.c, Ev.from))
         [] Ev.kind = "fec" -> /\ s' = Fec(s, Ev.o, Ev.c, Ev.i, Ev.k)
                               /\ SeenIs(FecSeen(s, Ev.o, Ev.c, Ev.i, Ev.k, Ev.from))
         [] OTHER -> UNCHANGED s /\ Quiet
    /\ There(s)
TQuery ==
    /\ Is("Query")
    /\ Ev.given = <<>> /\ Ev.relayed = <<>> /\ There(s)
    /\ CASE Ev.kind = "peers" ->
              /\ Ev.calls = <<>> /\ Ev.by = 0
              /\ Ev.members = HasMembers(s, Ev.o)
              /\ Ev.members => Range(Ev.list) \subseteq s.made[Ev.o].neigh /\ Ev.own
         [] Ev.kind = "app" ->
              /\ {c[1] : c \in Range(Ev.calls)} = Range(Asked(s, Ev.o)) /\ Len(Ev.calls) = Len(Asked(s, Ev.o))
              /\ \A c \in Range(Ev.calls) : c[2]
              /\ Ev.by = Answers(s, Ev.o, Ev.reply) /\ ~Ev.members
         \* (not for an overlay)
         [] OTHER -> Ev.calls = <<>> /\ Ev.by = 0 /\ ~Ev.members
    /\ UNCHANGED s
\* The other direction: messages and queries of an overlay of this node reach the peer, from the key of the
\* overlay, and its answer comes back. to: <<peer, overlay, kind of the overlay the key belongs to, intact>>
TSend ==
    /\ Is("Send") /\ Quiet /\ There(s)
    /\ Ev.to = <<<<Ev.p, Ev.o, s.made[Ev.o].kind, TRUE>>>>
    /\ Ev.how # "message" => Ev.answered
    /\ UNCHANGED s

TNext == TReset \/ TMake \/ TSub \/ TJoin \/ TMessage \/ TQuery \/ TSend
TSpec == TInit /\ [][TNext]_vars
=============================================================================
