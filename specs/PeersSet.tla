------------------------------ MODULE PeersSet ------------------------------
(* A10. Bounded sets of peers that evict the entry inserted longest ago.     *)
EXTENDS Integers, Sequences, FiniteSets

\* a set: members from the one inserted longest ago to the newest, capacity and
\* the number of insertions of an absent peer
Empty(c) == [order |-> <<>>, cap |-> IF c < 1 THEN 1 ELSE c, version |-> 0]

Members(s) == {s.order[i] : i \in 1..Len(s.order)}

Insert(s, p) ==
    IF p \in Members(s) THEN s
    ELSE [s EXCEPT !.order = Append(IF Len(@) >= s.cap THEN Tail(@) ELSE @, p),
                   !.version = @ + 1]

\* the others keep their order
Remove(s, p) ==
    IF p \notin Members(s) THEN s
    ELSE [s EXCEPT !.order = SelectSeq(@, LAMBDA q : q # p), !.version = @ + 1]

RECURSIVE InsertAll(_, _)
InsertAll(s, ps) == IF ps = <<>> THEN s ELSE InsertAll(Insert(s, Head(ps)), Tail(ps))

\* construction takes the first distinct peers and does not evict
RECURSIVE Construct(_, _)
Construct(s, ps) ==
    IF ps = <<>> \/ Len(s.order) >= s.cap THEN s
    ELSE Construct([Insert(s, Head(ps)) EXCEPT !.version = 0], Tail(ps))

Min(a, b) == IF a < b THEN a ELSE b

\* a random selection
IsSelection(s, amount, except, res) ==
    /\ \A i \in 1..Len(res) : res[i] \in Members(s) \ {except}
    /\ \A i, j \in 1..Len(res) : i # j => res[i] # res[j]
    /\ Len(res) = Min(amount, Cardinality(Members(s) \ {except}))

\* sequences without repetition over S of length at most n
RECURSIVE Arrangements(_, _)
Arrangements(S, n) ==
    IF n = 0 \/ S = {} THEN {<<>>}
    ELSE {<<>>} \cup UNION {{<<x>> \o a : a \in Arrangements(S \ {x}, n - 1)} : x \in S}

\* what a set may become when it is filled from another
Fills(s, other, amount, except) ==
    {InsertAll(s, a) : a \in Arrangements(Members(other) \ except, amount)}

Bounded(s) == /\ Len(s.order) <= s.cap
              /\ \A i, j \in 1..Len(s.order) : i # j => s.order[i] # s.order[j]
=============================================================================
