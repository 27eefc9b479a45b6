--------------------------- MODULE PeersSetTrace ----------------------------
EXTENDS PeersSet, TraceKit

VARIABLE sets  \* all sets of the scenario

TInit == sets = <<>> /\ l = 1

\* every view of a set agrees with its state
View(s, v) ==
    /\ Range(v.iter) = Members(s) /\ Len(v.iter) = Len(s.order)
    /\ v.cloned = v.iter /\ v.got = v.iter
    /\ \A p \in 1..Len(v.has) : v.has[p] = (p \in Members(s))
    /\ v.len = Len(s.order) /\ v.empty = (s.order = <<>>)
    /\ v.full = (Len(s.order) = s.cap)

TReset == Is("Reset") /\ sets' = <<>>
TNew == /\ Is("New")
        /\ LET s == [Construct(Empty(Ev.cap), Ev.init) EXCEPT !.version = Ev.view.version] IN
           View(s, Ev.view) /\ sets' = Append(sets, s)
Set(s) == /\ View(s, Ev.view) /\ s.version = Ev.view.version
          /\ sets' = [sets EXCEPT ![Ev.s] = s]
TInsert == /\ Is("Insert")
           /\ Ev.res = (Ev.p \notin Members(sets[Ev.s]))
           /\ Set(Insert(sets[Ev.s], Ev.p))
TRemove == /\ Is("Remove")
           /\ Ev.res = (Ev.p \in Members(sets[Ev.s]))
           /\ Set(Remove(sets[Ev.s], Ev.p))
TExtend == Is("Extend") /\ Set(InsertAll(sets[Ev.s], Ev.list))
TRandom == /\ Is("Random")
           /\ IsSelection(sets[Ev.s], Ev.amount, Ev.except, Ev.res)
           /\ Set(sets[Ev.s])
TFill == /\ Is("Fill")
         /\ IF Ev.s = Ev.from THEN Set(sets[Ev.s])
            ELSE \E s \in Fills(sets[Ev.s], sets[Ev.from], Ev.amount, Range(Ev.except)) : Set(s)
TDrain == /\ Is("Drain")
          /\ Range(Ev.res) = Members(sets[Ev.s]) /\ IsInjective(Ev.res)
          /\ sets' = sets

TNext == TReset \/ TNew \/ TInsert \/ TRemove \/ TExtend \/ TRandom \/ TFill \/ TDrain
TSpec == TInit /\ [][TNext]_<<sets, l>>
AllBounded == \A i \in 1..Len(sets) : Bounded(sets[i])
=============================================================================
