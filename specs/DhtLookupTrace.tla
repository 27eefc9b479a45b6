-------------------------- MODULE DhtLookupTrace ----------------------------
EXTENDS DhtLookup, TraceKit

\* lk: the lookup which runs, none before the first one
\*   pending  [node, time by which it has to answer]
\*   due      values which were answered and are to be handed out
\*   busy     until when it was waiting for something
\* said: everything genuine which was answered to one search for members
VARIABLES lk, said
vars == <<lk, said, l>>

None == [on |-> FALSE]
Slack == 20

TInit == lk = None /\ said = <<{}, {}>> /\ l = 1
TReset == /\ Is("Reset") /\ lk' = None /\ said' = <<{}, {}>>

\* a lookup begins; aff: node -> leading bits it shares with the key
TStart ==
    /\ Is("Start") /\ ~lk.on
    /\ lk' = [on |-> TRUE, aff |-> Ev.aff, batch |-> Ev.batch, new |-> Ev.new, eager |-> Ev.eager,
              bad |-> Range(Ev.bad), cand |-> Range(Ev.known), asked |-> {}, pending |-> {},
              due |-> <<>>, busy |-> Ev.t]
    /\ UNCHANGED said

Waiting(t) == {p \in lk.pending : p[2] + Slack > t}
\* it never waits for nothing
Moving(t) == lk.eager => Waiting(t) # {} \/ t <= lk.busy + Slack

TAsk == /\ Is("Ask") /\ lk.on
        /\ Ev.right                     \* asks for the key
        /\ Ev.p \notin lk.asked
        /\ Ev.p \in lk.cand \ lk.bad
        /\ Moving(Ev.t)
        /\ Cardinality({p \in lk.pending : p[2] > Ev.t + Slack}) < MaxParallel
        /\ lk' = [lk EXCEPT !.asked = @ \cup {Ev.p},
                            !.pending = @ \cup {<<Ev.p, Ev.until>>},
                            !.busy = IF Ev.until > @ THEN Ev.until ELSE @]
        /\ UNCHANGED said

\* an answer which is in time; nodes: the ones it names, for values `a`
TAnswer ==
    /\ Is("Answer") /\ lk.on /\ \E x \in lk.pending : x[1] = Ev.p
    /\ LET rest == {x \in lk.pending : x[1] # Ev.p} IN
       lk' = [lk EXCEPT !.pending = rest,
                        !.due = IF Ev.kind = "value" /\ Usable(Ev) THEN Append(@, Ev.val) ELSE @,
                        !.cand = IF lk.new THEN @ \cup Range(Ev.named) ELSE @,
                        !.busy = CHOOSE t \in {x[2] : x \in rest} \cup {Ev.t} :
                                    \A x \in rest : t >= Ev.t /\ x[2] <= t]
    /\ UNCHANGED said

Drop(s, v) == LET i == CHOOSE i \in 1..Len(s) : s[i] = v
              IN SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
TYield == /\ Is("Yield") /\ lk.on
          /\ Ev.val \in Range(lk.due)
          /\ lk' = [lk EXCEPT !.due = Drop(@, Ev.val)]
          /\ UNCHANGED said

\* all are answered or too late, everything was handed out
TEnd == /\ Is("End") /\ lk.on
        /\ {p \in lk.pending : p[2] > Ev.t + Slack} = {}
        /\ Moving(Ev.t)
        /\ lk.due = <<>>
        /\ Suffices(lk.asked, lk.cand \ lk.bad, lk.aff, lk.batch)
        /\ lk' = None
        /\ UNCHANGED said
\* the caller wants no more
TStop == /\ Is("Stop") /\ lk.on /\ lk' = None /\ UNCHANGED said
\* a lookup which ends with the first value (0: none)
TFirst == /\ Is("First") /\ lk.on
          /\ IF Ev.val # 0 THEN Ev.val \in Range(lk.due)
             ELSE /\ lk.due = <<>>
                  /\ {p \in lk.pending : p[2] > Ev.t + Slack} = {}
                  /\ Suffices(lk.asked, lk.cand \ lk.bad, lk.aff, lk.batch)
          /\ lk' = None
          /\ UNCHANGED said

\* one question to one node: its value is returned, if it is one
TDirect == /\ Is("Direct")
           /\ Ev.val = IF Ev.kind = "value" /\ Usable(Ev) THEN Ev.said ELSE 0
           /\ UNCHANGED <<lk, said>>

\* a value is sent to all known nodes, each of them once
TStored == /\ Is("Stored")
           /\ Range(Ev.asked) = Range(Ev.known) /\ IsInjective(Ev.asked)
           /\ UNCHANGED <<lk, said>>

\* --- members of an overlay and their addresses ----------------------------
\* what was answered in time: lists of members and addresses of members
TSaid == /\ Is("Said")
         /\ said' = IF ~Usable(Ev) THEN said
                    ELSE IF Ev.rule = "members"
                    THEN <<said[1] \cup {<<n[1], n[2]>> : n \in Range(Ev.nodes)}, said[2]>>
                    ELSE <<said[1], said[2] \cup {<<Ev.owned, Ev.val>>}>>
         /\ UNCHANGED lk
Found(e) == {f : f \in Range(e.found)}
TMembers == /\ Is("Members") /\ Ev.ended
            /\ \A f \in Found(Ev) : <<f[1], f[2]>> \in said[1] /\ <<f[1], f[3]>> \in said[2]
            \* something is found if there is something to be found
            /\ Ev.found = <<>> => ~\E m \in said[1] : \E a \in said[2] : a[1] = m[1]
            /\ said' = <<{}, {}>>
            /\ UNCHANGED lk

TNext == TReset \/ TStart \/ TAsk \/ TAnswer \/ TYield \/ TEnd \/ TStop \/ TFirst
         \/ TDirect \/ TStored \/ TSaid \/ TMembers
TSpec == TInit /\ [][TNext]_vars
=============================================================================
