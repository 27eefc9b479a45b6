------------------------------ MODULE Fragment ------------------------------
(* A05. Reassembly of split messages. A transfer belongs to a receiving      *)
(* identity, a sending peer and a message (named by its hash); it is clean   *)
(* while every part received for it is a true, non-empty piece of the        *)
(* message that does not partly overlap another one.                         *)
(* Times are milliseconds.                                                   *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Timeout  \* of an idle transfer

\* active transfers: key -> [parts, dirty, last, total, all]; total is what the
\* first part says, all has the first part of those with the same offset
VARIABLE tr

FInit == tr = <<>>

Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN x[2] + Sum(S \ {x})

Overlap(p, q) == p[1] < q[1] + q[2] /\ q[1] < p[1] + p[2]

New(t, total) == [parts |-> {}, dirty |-> FALSE, last |-> t, total |-> total, all |-> {}]
Current(k, t, total) == IF k \in DOMAIN tr THEN tr[k] ELSE New(t, total)

\* p = <<offset, length>>; ok: the data is that of the message at this place
\* and the announced total is right
Clean(x, p, ok) == /\ ok /\ p[2] > 0
                   /\ \A q \in x.parts : q = p \/ ~Overlap(p, q)
Complete(x, len) == Sum(x.parts) = len

(* Whatever has been received, a transfer is over with as many bytes as the  *)
(* message has: the parts make up the message, or they never will and would  *)
(* only be in the way of the message when it is sent again.                  *)
Over(x) == x.total > 0 /\ Sum(x.all) >= x.total

(* A part of message k (of length len) arrives; total: the length according  *)
(* to the part; out: whether the message is delivered, afterwards: whether   *)
(* the transfer still exists.                                                *)
Part(k, len, p, total, ok, t, out, afterwards) ==
    LET x == Current(k, t, total)
        y == [x EXCEPT !.last = t,
                       !.all = IF p[2] = 0 \/ \E q \in @ : q[1] = p[1] THEN @ ELSE @ \cup {p}]
    IN
    IF x.dirty \/ ~Clean(x, p, ok) THEN
        \/ /\ afterwards /\ ~Over(y)
           /\ out = FALSE
           /\ tr' = Put(tr, k, [y EXCEPT !.dirty = TRUE])
        \/ /\ ~afterwards
           /\ tr' = Drop(tr, k)
    ELSE IF Complete([y EXCEPT !.parts = @ \cup {p}], len) THEN
        /\ out = TRUE /\ ~afterwards
        /\ tr' = Drop(tr, k)
    ELSE
        /\ out = FALSE /\ afterwards
        /\ tr' = Put(tr, k, [y EXCEPT !.parts = @ \cup {p}])

MayExpire(x, t) == t - x.last >= Timeout - 1000
MustExpire(x, t) == t - x.last >= 2 * Timeout + 1000
Expire(t, gone) ==
    /\ \A k \in gone : k \in DOMAIN tr /\ MayExpire(tr[k], t)
    /\ \A k \in DOMAIN tr : MustExpire(tr[k], t) => k \in gone
    /\ tr' = [x \in DOMAIN tr \ gone |-> tr[x]]

(* What a sender makes of a message: a sequence of <<offset, length>>        *)
Tiles(parts, len) ==
    /\ \A i \in 1..Len(parts) : parts[i][2] > 0
    /\ parts[1][1] = 0
    /\ \A i \in 2..Len(parts) : parts[i][1] = parts[i - 1][1] + parts[i - 1][2]
    /\ parts[Len(parts)][1] + parts[Len(parts)][2] = len
=============================================================================
