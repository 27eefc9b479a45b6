------------------------------ MODULE Overlays ------------------------------
(* Several overlays on one node: which of them, and which of the handlers    *)
(* registered for them, is reached by a message or a query of a peer.        *)
EXTENDS Integers, Sequences, FiniteSets

Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]

\* made: overlay -> [kind, neigh]; subs: overlay -> handler
\* ord: <<overlay, content>> of ordinary broadcasts seen
\* fec: <<overlay, content, symbol>> of the others, given: those which were handed out
Start == [made |-> <<>>, subs |-> <<>>, ord |-> {}, fec |-> {}, given |-> {}]

\* The first registration counts
Make(s, o, kind, neigh) ==
    IF o \in DOMAIN s.made THEN s
    ELSE [s EXCEPT !.made = Put(@, o, [kind |-> kind, neigh |-> neigh])]
Subscribe(s, o, h) == IF o \in DOMAIN s.subs THEN s ELSE [s EXCEPT !.subs = Put(@, o, h)]
Join(s, o, p) == [s EXCEPT !.made[o].neigh = @ \cup {p}]

\* What is seen of a message: broadcasts handed out, by which overlay (<<overlay, content>>), and
\* who gets the packet from which overlay (<<overlay, peer>>)
Nothing == [given |-> {}, relayed |-> {}]
Others(s, o, from) == {<<o, p>> : p \in s.made[o].neigh \ {from}}

\* an ordinary broadcast of a peer in overlay o
Ord(s, o, c) ==
    IF o \notin DOMAIN s.made THEN s ELSE [s EXCEPT !.ord = @ \cup {<<o, c>>}]
OrdSeen(s, o, c, from) ==
    IF o \notin DOMAIN s.made \/ <<o, c>> \in s.ord THEN Nothing
    ELSE [given |-> {<<o, c>>}, relayed |-> Others(s, o, from)]

\* symbol i of a broadcast of k symbols
Symbols(s, o, c) == {x \in s.fec : x[1] = o /\ x[2] = c}
Fec(s, o, c, i, k) ==
    IF o \notin DOMAIN s.made THEN s
    ELSE LET t == [s EXCEPT !.fec = @ \cup {<<o, c, i>>}]
         IN [t EXCEPT !.given = IF Cardinality(Symbols(t, o, c)) >= k THEN @ \cup {<<o, c>>} ELSE @]
FecSeen(s, o, c, i, k, from) ==
    IF o \notin DOMAIN s.made \/ <<o, c, i>> \in s.fec THEN Nothing
    ELSE [given |-> Fec(s, o, c, i, k).given \ s.given, relayed |-> Others(s, o, from)]

\* Queries: for members are answered by the overlay, all others by the handler. Which handlers are called
Asked(s, o) == IF o \in DOMAIN s.subs THEN <<s.subs[o]>> ELSE <<>>
\* ... and who answers (0: nobody)
Answers(s, o, reply) == IF o \in DOMAIN s.subs /\ reply = "answer" THEN s.subs[o] ELSE 0
HasMembers(s, o) == o \in DOMAIN s.made
=============================================================================
