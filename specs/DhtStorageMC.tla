---------------------------- MODULE DhtStorageMC ----------------------------
(* All short histories of stores of good and bad values and of passing time. *)
(* What was accepted so far is remembered, and what lookups yield is         *)
(* compared with what the properties say about it.                           *)
EXTENDS DhtStorage, Sequences, TLC, ScriptKit

CONSTANTS Kinds, Keys, Depth, MaxNow, Bads, AllLists

MaxName == 2
MaxIdx == 1
AllBads == {"no", "keysig", "valsig", "owner", "form", "name", "idx"}
SomeBads == {"no", "keysig"}

Good(rule, ttl, val, nodes) ==
    [rule |-> rule, ttl |-> ttl, val |-> val, name |-> MaxName, idx |-> MaxIdx, owner |-> TRUE,
     form |-> TRUE, keysig |-> TRUE, valsig |-> TRUE, nodes |-> nodes]
Spoil(v, bad) ==
    CASE bad = "no" -> v
      [] bad = "keysig" -> [v EXCEPT !.keysig = FALSE]
      [] bad = "valsig" -> [v EXCEPT !.valsig = FALSE]
      [] bad = "owner" -> [v EXCEPT !.owner = FALSE]
      [] bad = "form" -> [v EXCEPT !.form = FALSE]
      [] bad = "name" -> [v EXCEPT !.name = MaxName + 1]
      [] bad = "idx" -> [v EXCEPT !.idx = MaxIdx + 1]

N(m, ver, ok) == [m |-> m, ver |-> ver, ok |-> ok]
Lists ==
    IF AllLists
    THEN {S \in SUBSET [m : {1, 2}, ver : {1, 2}, ok : BOOLEAN] : Cardinality(S) \in 1..2}
    ELSE {{N(1, 1, TRUE)}, {N(1, 2, TRUE)}, {N(2, 1, TRUE)}, {N(1, 1, TRUE), N(2, 2, TRUE)},
          {N(1, 2, TRUE), N(2, 1, TRUE)}, {N(1, 1, TRUE), N(1, 2, TRUE)},
          {N(1, 2, FALSE)}, {N(1, 2, FALSE), N(2, 1, TRUE)}}

VARIABLES s, now, n, acc, script
vars == <<s, now, n, acc, script>>
\* (the script is only there to be replayed)
view == <<s, now, n, acc>>

Init == s = <<>> /\ now = 1 /\ n = 0 /\ acc = {} /\ script = <<>>

Put1(k, v, what) ==
    LET s2 == Stored(s, k, v, now, MaxName, MaxIdx) IN
    /\ s' = s2 /\ n' = n + 1
    /\ acc' = IF Acceptable(v, now, MaxName, MaxIdx)
              THEN acc \cup {[k |-> k, at |-> now, v |-> v, i |-> n]} ELSE acc
    /\ script' = Append(script, what)
    /\ UNCHANGED now

StoreSigned == \E k \in Keys, ttl \in now..(now + 2), bad \in Bads :
    Put1(k, Spoil(Good("signed", ttl, n + 1, {}), bad), <<"signed", k, ttl - now, bad>>)
StoreMembers == \E k \in Keys, ttl \in now..(now + 2), bad \in Bads, nodes \in Lists :
    /\ bad # "no" => nodes = {N(1, 2, TRUE)} /\ ttl = now + 2
    /\ Put1(k, Spoil(Good("members", ttl, 0, nodes), bad),
            <<"members", k, ttl - now, bad, {<<e.m, e.ver, e.ok>> : e \in nodes}>>)
Pass == /\ now < MaxNow /\ now' = now + 1
        /\ script' = Append(script, <<"pass">>)
        /\ UNCHANGED <<s, n, acc>>
Next == Len(script) < Depth /\ (("signed" \in Kinds /\ StoreSigned)
                                  \/ ("members" \in Kinds /\ StoreMembers) \/ Pass)
Spec == Init /\ [][Next]_vars

\* a lookup yields the accepted value which expires last, while it is valid
Latest == \A k \in Keys :
    LET f == Found(s, k, now)
        mine == {a \in acc : a.k = k /\ a.v.rule = "signed"}
        alive == {a \in mine : a.v.ttl > now} IN
    "signed" \in Kinds =>
      IF alive = {} THEN f = Nothing
      ELSE \E a \in alive :
             /\ f.ttl = a.v.ttl /\ f.val = a.v.val
             /\ \A b \in mine : b.v.ttl <= a.v.ttl /\ (b.v.ttl = a.v.ttl => a.i <= b.i)
\* of every member the newest entry, since the list has last expired
NewestEntries == \A k \in Keys :
    LET f == Found(s, k, now)
        mine == {a \in acc : a.k = k /\ a.v.rule = "members"} IN
    "members" \in Kinds =>
      /\ f = Nothing <=> \A a \in mine : a.v.ttl <= now
      /\ \A e \in f.nodes : \E a \in mine : [m |-> e[1], ver |-> e[2], ok |-> TRUE] \in a.v.nodes
      /\ \A e1, e2 \in f.nodes : e1[1] = e2[1] => e1 = e2
      /\ \A a \in mine :
           a.v.ttl > now /\ (\A b \in mine : b.i < a.i /\ b.v.ttl > a.at => b.v.ttl <= a.v.ttl)
             => \A x \in Valid(a.v.nodes) : \E e \in f.nodes : e[1] = x.m /\ e[2] >= x.ver
Emit == Len(script) = Depth => EmitScript(script)
=============================================================================
