--------------------------- MODULE BcastQueueImpl ---------------------------
(* How the queue is made: a queue of values and a semaphore with a permit    *)
(* for each of them. Consumers are futures that may be dropped at any time;  *)
(* the steps of different threads interleave.                                *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Consumers, Values, Drops,
    ValueFirst,   \* the value is put into the queue before its permit is added
    Returned      \* the permit of a dropped wait goes to the next one

VARIABLES data, permits, line, granted, woken, st, pushed, half, got, drops
\* line: waits without a permit, granted: those which were given one and have not taken it
\* st: "idle", "wait" (in line or granted), "take" (has taken a permit), half: a push in the middle
vars == <<data, permits, line, granted, woken, st, pushed, half, got, drops>>

Init == /\ data = <<>> /\ permits = 0 /\ line = <<>> /\ granted = {} /\ woken = {}
        /\ st = [c \in Consumers |-> "idle"] /\ pushed = 0 /\ half = 0 /\ got = <<>> /\ drops = 0

AddPermit ==
    IF line = <<>> THEN permits' = permits + 1 /\ UNCHANGED <<line, granted, woken>>
    ELSE /\ permits' = permits
         /\ granted' = granted \cup {Head(line)}
         /\ woken' = woken \cup {Head(line)}
         /\ line' = Tail(line)

Push1 == /\ half = 0 /\ pushed < Values
         /\ half' = 1
         /\ pushed' = pushed + 1
         /\ IF ValueFirst THEN data' = Append(data, pushed + 1) /\ UNCHANGED <<permits, line, granted, woken>>
            ELSE AddPermit /\ UNCHANGED data
         /\ UNCHANGED <<st, got, drops>>
Push2 == /\ half = 1
         /\ half' = 0
         /\ IF ValueFirst THEN AddPermit /\ UNCHANGED data
            ELSE data' = Append(data, pushed) /\ UNCHANGED <<permits, line, granted, woken>>
         /\ UNCHANGED <<st, pushed, got, drops>>

\* a new wait, or one which was told
Poll(c) ==
    /\ \/ st[c] = "idle"
       \/ st[c] = "wait" /\ c \in woken
    /\ UNCHANGED <<data, pushed, half, got, drops>>
    /\ IF c \in granted THEN
            /\ granted' = granted \ {c} /\ woken' = woken \ {c}
            /\ st' = [st EXCEPT ![c] = "take"]
            /\ UNCHANGED <<permits, line>>
       ELSE IF st[c] = "idle" /\ permits > 0 THEN
            /\ permits' = permits - 1 /\ st' = [st EXCEPT ![c] = "take"]
            /\ UNCHANGED <<line, granted, woken>>
       ELSE /\ st' = [st EXCEPT ![c] = "wait"]
            /\ line' = IF st[c] = "idle" THEN Append(line, c) ELSE line
            /\ woken' = woken \ {c}
            /\ UNCHANGED <<permits, granted>>
\* the permit is gone, also if there is no value
Take(c) ==
    /\ st[c] = "take"
    /\ IF data # <<>> THEN
            /\ got' = Append(got, Head(data)) /\ data' = Tail(data)
            /\ st' = [st EXCEPT ![c] = "idle"]
       ELSE st' = [st EXCEPT ![c] = "idle"] /\ UNCHANGED <<data, got>>
    /\ UNCHANGED <<permits, line, granted, woken, pushed, half, drops>>
Drop(c) ==
    /\ st[c] = "wait" /\ drops < Drops
    /\ drops' = drops + 1
    /\ st' = [st EXCEPT ![c] = "idle"]
    /\ IF c \in granted /\ Returned THEN
            IF line = <<>> THEN permits' = permits + 1 /\ granted' = granted \ {c} /\ woken' = woken \ {c} /\ line' = line
            ELSE /\ permits' = permits /\ line' = Tail(line)
                 /\ granted' = (granted \ {c}) \cup {Head(line)}
                 /\ woken' = (woken \ {c}) \cup {Head(line)}
       ELSE /\ granted' = granted \ {c} /\ woken' = woken \ {c} /\ permits' = permits
            /\ line' = SelectSeq(line, LAMBDA d : d # c)
    /\ UNCHANGED <<data, pushed, half, got>>

Next == Push1 \/ Push2 \/ \E c \in Consumers : Poll(c) \/ Take(c) \/ Drop(c)
Fair == /\ WF_vars(Push2)
        /\ \A c \in Consumers : WF_vars(Take(c)) /\ WF_vars(st[c] = "wait" /\ Poll(c))
Spec == Init /\ [][Next]_vars /\ Fair

Waiting == {c \in Consumers : st[c] = "wait"}
\* in order of reception, exactly once
InOrder == \/ half = 1 /\ ~ValueFirst
           \/ got \o data = [i \in 1..pushed |-> i]
\* nothing in the middle: somebody who waits has been told
Told == half = 0 /\ (\A c \in Consumers : st[c] # "take") /\ data # <<>> /\ Waiting # {}
            => Waiting \cap woken # {}
\* a wait that starts while there is something and nobody else waits gets it
Available == half = 0 /\ (\A c \in Consumers : st[c] = "idle") => permits = Len(data)
\* as long as somebody waits, everything is handed out
Served == (data # <<>> /\ Waiting # {}) ~> (data = <<>> \/ Waiting = {})
=============================================================================
