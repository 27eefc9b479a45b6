----------------------------- MODULE RldpSizes ------------------------------
(* What the sizes of a query and of its answer, the limits of both nodes and *)
(* compression allow: neither an application nor a peer gets more than its   *)
(* limit, whatever is inside of the packets, and whoever gets something gets *)
(* exactly what was sent.                                                    *)
EXTENDS Integers

CONSTANT Slack(_)      \* headers and the overhead of incompressible data

TooBig(len, limit) == len > limit
Fits(len, limit) == len + Slack(len) <= limit

\* la: limit of the asker (or the one it announces), lb: of the other side
NewExchange(qlen, alen, la, lb) ==
    [qlen |-> qlen, alen |-> alen, la |-> la, lb |-> lb, called |-> FALSE, res |-> "no"]

MayCall(x, whole) == ~x.called /\ whole /\ ~TooBig(x.qlen, x.lb)
Called(x) == [x EXCEPT !.called = TRUE]

\* wire: the size of what was sent as the answer, 0 if it is not visible
MayEnd(x, res, whole, wire) ==
    /\ x.res = "no"
    /\ res \in {"answer", "none", "error"}
    /\ wire <= x.la
    /\ res = "answer" => x.called /\ whole /\ ~TooBig(x.alen, x.la)
    /\ res # "answer" => ~(Fits(x.qlen, x.lb) /\ Fits(x.alen, x.la))
    /\ ~x.called => ~Fits(x.qlen, x.lb)
Ended(x, res) == [x EXCEPT !.res = res]
=============================================================================
