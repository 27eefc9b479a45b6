---------------------------- MODULE BcastQueueMC ----------------------------
(* All histories of receptions, waits and cancellations.                     *)
EXTENDS BcastQueue, TLC, ScriptKit

CONSTANTS Consumers, Values, Depth
VARIABLES s, n, got, script
vars == <<s, n, got, script>>

Init == s = Empty /\ n = 0 /\ got = <<>> /\ script = <<>>
Step(x) == Len(script) < Depth /\ script' = Append(script, x)
DoPush == /\ n < Values /\ Step(<<"push">>)
          /\ n' = n + 1 /\ s' = Push(s, n + 1) /\ UNCHANGED got
\* (who is told is up to the implementation, so a wait may not be over although there is something)
DoPoll(c) ==
    /\ Step(<<"poll", c>>) /\ n' = n
    /\ \/ /\ s.queue # <<>>
          /\ s' = Get(s, c) /\ got' = Append(got, Head(s.queue))
       \/ /\ (s.queue = <<>> \/ s.waiting \ {c} # {})
          /\ s' = Wait(s, c) /\ UNCHANGED got
DoCancel(c) == /\ c \in s.waiting /\ Step(<<"cancel", c>>)
               /\ s' = Cancel(s, c) /\ UNCHANGED <<n, got>>
Next == DoPush \/ \E c \in Consumers : DoPoll(c) \/ DoCancel(c)
Spec == Init /\ [][Next]_vars

\* handed out exactly once, in order, nothing is lost
InOrder == got \o s.queue = [i \in 1..n |-> i]
Emit == Len(script) = Depth => EmitScript(script)
=============================================================================
