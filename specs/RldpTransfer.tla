---------------------------- MODULE RldpTransfer ----------------------------
(* R02. The two sides of an RLDP transfer. A message is cut into parts, each *)
(* part is encoded into an endless row of symbols; any sufficiently large    *)
(* set of different symbols gives the part back.                             *)
(*                                                                           *)
(* Parameters of a part: <<length, symbol size, symbols>>.                   *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS
    Every,   \* a report is due after that many symbols
    Extra,   \* that many additional symbols are always enough
    Small,   \* the smallest size of symbols
    Life     \* ms a transfer is kept at least

CeilDiv(a, b) == (a + b - 1) \div b
Symbol(par) == par[2] - (par[2] % 8)
\* a usable set of parameters
Usable(par) == /\ par[1] > 0 /\ par[1] < 16777216
               /\ par[2] >= Small /\ par[2] < 65536
               /\ CeilDiv(par[1], Symbol(par)) <= 56403
Needed(par) == CeilDiv(par[1], Symbol(par))

-----------------------------------------------------------------------------
(* The receiver *)

\* params: <<>> until the first symbol of the part, got: different symbols,
\* cnt: symbols since the last report, have: bytes of complete parts
NewReceiver(t) == [total |-> -1, part |-> 0, params |-> <<>>, got |-> {}, cnt |-> 0,
                   have |-> 0, done |-> FALSE, since |-> t]

Confirm(p, s) == <<"Confirm", p, s>>
Complete(p) == <<"Complete", p, 0>>

Only(r, replies) == {[r |-> r, replies |-> replies, out |-> FALSE]}

\* the part may be decoded from these symbols
MayDecode(par, got) == Cardinality(got) >= Needed(par)
MustDecode(par, got) ==
    /\ MayDecode(par, got)
    /\ \/ 0..(Needed(par) - 1) \subseteq got
       \/ Cardinality(got) >= Needed(par) + Extra

(* What may happen when a chunk c arrives: the next state, the reports which *)
(* are sent back and whether the message is handed over.                     *)
Receive(r, c, limit) ==
    IF r.done THEN
        \* every later packet is reported as received
        Only(r, <<Confirm(c.part, c.esi), Complete(c.part)>>) \cup Only(r, <<Complete(c.part)>>)
    ELSE IF (r.total = -1 /\ c.total > limit) \/ (r.total # -1 /\ c.total # r.total) THEN
        Only(r, <<>>)
    ELSE IF c.total = 0 THEN
        \* nothing at all
        Only(r, <<>>) \cup Only([r EXCEPT !.total = 0, !.done = TRUE], <<>>)
    ELSE LET r1 == [r EXCEPT !.total = c.total] IN
    IF c.part < r.part THEN Only(r1, <<Complete(c.part)>>)
    ELSE IF c.part > r.part THEN Only(r1, <<>>)
    ELSE IF r.params # <<>> /\ c.par # r.params THEN Only(r1, <<>>)
    ELSE IF ~Usable(c.par) \/ c.par[1] > c.total - r.have THEN Only(r1, <<>>)
    ELSE LET r2 == [r1 EXCEPT !.params = c.par] IN
    IF ~c.good THEN
        \* not a symbol at all
        Only(r2, <<>>)
        \cup (IF r2.got = {} THEN {} ELSE UNION {Only([r2 EXCEPT !.cnt = 0], <<Confirm(c.part, s)>>) : s \in r2.got})
    ELSE
    LET got == r2.got \cup {c.esi}
        r3 == [r2 EXCEPT !.got = got]
        wait == (IF r3.cnt + 1 < Every THEN Only([r3 EXCEPT !.cnt = @ + 1], <<>>) ELSE {})
                \cup UNION {Only([r3 EXCEPT !.cnt = 0], <<Confirm(c.part, s)>>) : s \in got}
        have == r3.have + c.par[1]
        over == IF have = r3.total THEN
                    {[r |-> [r3 EXCEPT !.done = TRUE, !.have = have], replies |-> <<Complete(c.part)>>, out |-> TRUE]}
                ELSE Only([r3 EXCEPT !.part = @ + 1, !.have = have, !.params = <<>>, !.got = {}, !.cnt = 0],
                          <<Complete(c.part)>>)
    IN IF MustDecode(c.par, got) THEN over
       ELSE IF MayDecode(c.par, got) THEN over \cup wait
       ELSE wait

-----------------------------------------------------------------------------
(* The sender *)

\* prog: when the last news from the receiver came, in: highest reported
\* symbol, len: length of the current part, have: bytes of the parts before
\* sent: symbols 0..next-1 and those in more were sent
NewSender(t) == [part |-> 0, params |-> <<>>, total |-> -1, next |-> 0, more |-> {}, prog |-> t, in |-> 0,
                 have |-> 0, reply |-> FALSE, over |-> FALSE]

Max(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x >= y

Values(q) == {q[i] : i \in 1..Len(q)}
Highest(s) == IF s.more = {} THEN s.next - 1 ELSE Max(s.more)

(* Symbols esis of a part are sent, all of them are new                      *)
SendSymbols(s, part, total, par, esis) ==
    /\ ~s.over
    /\ part = s.part
    /\ s.total \in {-1, total}
    /\ s.params \in {<<>>, par}
    /\ Usable(par) /\ par[3] = Needed(par)
    /\ s.have + par[1] <= total
    /\ \A i \in 1..Len(esis) : esis[i] >= s.next /\ esis[i] \notin s.more
    /\ Cardinality(Values(esis)) = Len(esis)

SentSymbols(s, total, par, esis) ==
    LET all == s.more \cup Values(esis)
        n == Cardinality(all)
        row == all = s.next..(s.next + n - 1)
    IN [s EXCEPT !.total = total, !.params = par,
                 !.next = IF row THEN @ + n ELSE @, !.more = IF row THEN {} ELSE all]

LastPart(s) == s.params # <<>> /\ s.have + s.params[1] = s.total

\* a report of the receiver
OnConfirm(s, part, esi, t) ==
    IF s.over \/ part # s.part \/ esi <= s.in \/ esi > Highest(s) + 1 THEN s
    ELSE [s EXCEPT !.in = esi, !.prog = t]
OnComplete(s, part, t) ==
    IF s.over \/ part # s.part \/ s.params = <<>> THEN s
    ELSE IF LastPart(s) THEN [s EXCEPT !.part = @ + 1, !.over = TRUE]
    ELSE [s EXCEPT !.part = @ + 1, !.have = @ + s.params[1], !.params = <<>>, !.next = 0, !.more = {}, !.in = 0,
                   !.prog = t, !.over = FALSE]
OnReply(s) == [s EXCEPT !.reply = TRUE, !.over = @ \/ LastPart(s)]
=============================================================================
