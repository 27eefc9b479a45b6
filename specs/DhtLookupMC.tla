---------------------------- MODULE DhtLookupMC -----------------------------
(* The lookup as it is done: a stack of nodes still to be asked, filled from *)
(* the list of the known ones at the start and, when wanted, after answers   *)
(* by which it has grown.                                                    *)
EXTENDS DhtLookup, TLC, ScriptKit

CONSTANTS N, Affs, Batches, Outcomes, Parallel, SkipFirst, DropNear

Peers == 1..N
VARIABLES aff, batch, fresh, bad, start,    \* configuration
          table,     \* known nodes in the order in which they were learnt
          index, stack, version, pending, asked, due, out, did, phase, script
vars == <<aff, batch, fresh, bad, start, table, index, stack, version, pending, asked, due, out, did, phase, script>>

Ids(s) == {s[i] : i \in 1..Len(s)}

\* all orders of a set from the nearest on; sorting is not stable
Sorted(S) == {f \in [1..Cardinality(S) -> S] :
    /\ Ids(f) = S
    /\ \A i \in 1..Len(f) - 1 : aff[f[i]] >= aff[f[i + 1]]}

\* the defective ways: the first new one is skipped, and near ones dropped
RECURSIVE Pushed(_, _)
Pushed(kept, rest) ==
    IF rest = <<>> THEN kept
    ELSE LET p == Head(rest)
             last == kept[Len(kept)]
             add == \/ ~DropNear \/ kept = <<>> \/ batch = 0
                    \/ aff[last] <= aff[p] \/ Len(kept) < batch
         IN Pushed(IF add THEN Append(kept, p) ELSE kept, Tail(rest))
NewOnes == SelectSeq(SubSeq(table, index, Len(table)), LAMBDA p : p \notin bad)
Filled == LET all == Pushed(stack, NewOnes) IN
    {SelectSeq(f, LAMBDA p : \/ batch = 0
                             \/ \E i \in 1..Len(f) : f[i] = p /\ (i <= batch \/ aff[p] >= aff[f[1]]))
        : f \in Sorted(Ids(all))}

Init ==
    /\ aff \in [Peers -> Affs] /\ batch \in Batches /\ fresh \in BOOLEAN
    /\ bad \in {{}, {1}}
    /\ start \in 1..N
    /\ table = [i \in 1..start |-> i]
    /\ index = 1 /\ stack = <<>> /\ version = 0
    /\ pending = {} /\ asked = {} /\ due = {} /\ out = {} /\ did = {}
    /\ phase = "new" /\ script = <<>>
Conf == UNCHANGED <<aff, batch, fresh, bad, start>>
Next0(i) == IF SkipFirst THEN i + 1 ELSE i
Begin == /\ phase = "new" /\ phase' = "run"
         /\ \E s \in Filled : stack' = s
         /\ index' = Next0(Len(table) + 1) /\ version' = Len(table)
         /\ Conf /\ UNCHANGED <<table, pending, asked, due, out, did, script>>
\* the node asks as long as it can, the farthest of the chosen ones first
Ask == /\ phase = "run" /\ stack # <<>> /\ Cardinality(pending) < Parallel
       /\ LET p == stack[Len(stack)] IN
          /\ pending' = pending \cup {p} /\ asked' = asked \cup {p}
          /\ did' = did \cup {<<p, p \in asked>>}
       /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
       /\ Conf /\ UNCHANGED <<table, index, version, due, out, phase, script>>
Refill(t) ==
    IF fresh /\ Len(t) # version
    THEN /\ version' = Len(t) /\ index' = Next0(Len(t) + 1)
         /\ LET all == Pushed(stack, SelectSeq(SubSeq(t, index, Len(t)), LAMBDA p : p \notin bad)) IN
            \E f \in Sorted(Ids(all)) :
              stack' = SelectSeq(f, LAMBDA p : \/ batch = 0
                          \/ \E i \in 1..Len(f) : f[i] = p /\ (i <= batch \/ aff[p] >= aff[f[1]]))
    ELSE UNCHANGED <<version, index, stack>>
\* a value, a forged one, the next unknown node, or no answer in time
Outcome == /\ phase = "run"
           /\ (stack = <<>> \/ Cardinality(pending) = Parallel)
           /\ \E p \in pending, o \in Outcomes :
              /\ pending' = pending \ {p}
              /\ due' = IF o = "value" THEN due \cup {p} ELSE due
              /\ out' = IF o = "value" THEN out \cup {p} ELSE out
              /\ table' = IF o = "node" /\ Len(table) < N THEN Append(table, Len(table) + 1) ELSE table
              /\ Refill(table')
              /\ script' = Append(script, <<p, o>>)
           /\ Conf /\ UNCHANGED <<asked, did, phase>>
End == /\ phase = "run" /\ pending = {} /\ stack = <<>>
       /\ phase' = "end"
       /\ Conf /\ UNCHANGED <<table, index, stack, version, pending, asked, due, out, did, script>>
Next == Begin \/ Ask \/ Outcome \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Once == \A d \in did : ~d[2]
Bounded == Cardinality(pending) <= MaxParallel
OnlyGood == asked \cap bad = {}
Candidates == (IF fresh THEN Ids(table) ELSE 1..start) \ bad
Enough == phase = "end" => /\ Suffices(asked, Candidates, aff, batch)
                           /\ asked \subseteq Candidates
                           /\ out = due
Ends == <>(phase = "end")
Emit == phase = "end" => EmitScript(<<aff, batch, fresh, bad # {}, start, script>>)
=============================================================================
