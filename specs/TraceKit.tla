------------------------------ MODULE TraceKit ------------------------------
(* Common parts of all trace specifications: the recorded events of the      *)
(* implementation are read from the file named by the environment variable   *)
(* TRACE (one JSON record per line), each is consumed by one step.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLE l  \* the next event

Trace == ndJsonDeserialize(IOEnv.TRACE)

Ev == Trace[l]

Is(e) == /\ l <= Len(Trace)
         /\ Trace[l].e = e
         /\ l' = l + 1

Range(s) == {s[i] : i \in 1..Len(s)}
IsInjective(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]

\* The whole trace was matched (one state per event plus the initial one)
Accepted ==
    /\ PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
    /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
