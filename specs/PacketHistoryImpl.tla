------------------------- MODULE PacketHistoryImpl --------------------------
(* A04, the design of the history: two blocks of B bits (the previous and    *)
(* the current one), the number of the current block and a small counter in  *)
(* one word `index`, which is taken (`Transit`) while the bits change. The   *)
(* steps of several threads interleave; `acc` and `high` are the abstract    *)
(* history, updated when a thread publishes its decision.                    *)
EXTENDS Integers, FiniteSets, Sequences, TLC

CONSTANTS Threads, B, MaxSeq, Counter, MaxCalls,
          UseCounter, MoveIndex, SetBitOnMove  \* design choices, TRUE in the code

VARIABLES index,     \* [blk, cnt] or Transit
          bits,      \* [0..1 -> SUBSET 0..B-1], 1 is the current block
          pc, n, idx, free,  \* per thread
          acc, high, calls, bad

Transit == [blk |-> -1, cnt |-> -1]
vars == <<index, bits, pc, n, idx, free, acc, high, calls, bad>>

Blk(s) == s \div B
Off(s) == s % B

Init == /\ index = [blk |-> 0, cnt |-> 0]
        /\ bits = [i \in 0..1 |-> {}]
        /\ pc = [t \in Threads |-> "idle"]
        /\ n = [t \in Threads |-> 0]
        /\ idx = [t \in Threads |-> Transit]
        /\ free = [t \in Threads |-> {}]
        /\ acc = {} /\ high = -1 /\ calls = 0 /\ bad = {}

\* A call starts; what must be answered if it were alone is remembered only for
\* the numbers that nobody else delivers at the same time
Start(t) ==
    /\ pc[t] = "idle" /\ calls < MaxCalls
    /\ \E s \in 1..MaxSeq : n' = [n EXCEPT ![t] = s]
    /\ pc' = [pc EXCEPT ![t] = "load"]
    /\ calls' = calls + 1
    /\ UNCHANGED <<index, bits, idx, free, acc, high, bad>>

\* the refusal of a number which is still in the window
Refuse(t) == IF n[t] \notin acc /\ (n[t] > high \/ high - n[t] <= B)
             THEN bad' = bad \cup {<<"refused", n[t]>>} ELSE UNCHANGED bad

Load(t) ==
    /\ pc[t] = "load" /\ index # Transit
    /\ idx' = [idx EXCEPT ![t] = index]
    /\ IF index.blk > Blk(n[t]) + 1
       THEN pc' = [pc EXCEPT ![t] = "idle"] /\ Refuse(t)
       ELSE pc' = [pc EXCEPT ![t] =
                     IF index.blk < Blk(n[t]) THEN "take" ELSE "read"] /\ UNCHANGED bad
    /\ UNCHANGED <<index, bits, n, free, acc, high, calls>>

Slot(t) == IF idx[t].blk = Blk(n[t]) THEN 1 ELSE 0

Read(t) ==
    /\ pc[t] = "read"
    /\ pc' = [pc EXCEPT ![t] = IF Off(n[t]) \in bits[Slot(t)] THEN "seen" ELSE "unseen"]
    /\ UNCHANGED <<index, bits, n, idx, free, acc, high, calls, bad>>

\* the index is looked at again after the bit was read
Recheck(t) ==
    /\ pc[t] \in {"seen", "unseen"}
    /\ IF index # idx[t]
       THEN pc' = [pc EXCEPT ![t] = "load"] /\ UNCHANGED bad
       ELSE IF pc[t] = "seen"
            THEN pc' = [pc EXCEPT ![t] = "idle"] /\ Refuse(t)
            ELSE pc' = [pc EXCEPT ![t] = "take"] /\ UNCHANGED bad
    /\ UNCHANGED <<index, bits, n, idx, free, acc, high, calls>>

\* compare-and-exchange of the index to Transit
Take(t) ==
    /\ pc[t] = "take"
    /\ IF index = idx[t]
       THEN index' = Transit /\ pc' = [pc EXCEPT ![t] = "write"]
       ELSE index' = index /\ pc' = [pc EXCEPT ![t] = "load"]
    /\ UNCHANGED <<bits, n, idx, free, acc, high, calls, bad>>

Write(t) ==
    /\ pc[t] = "write"
    /\ LET b == Blk(n[t]) IN
       IF idx[t].blk >= b
       THEN bits' = [bits EXCEPT ![Slot(t)] = @ \cup {Off(n[t])}]
       ELSE bits' = [i \in 0..1 |->
                       IF i = 0 THEN IF idx[t].blk + 1 = b THEN bits[1] ELSE {}
                       ELSE IF SetBitOnMove THEN {Off(n[t])} ELSE {}]
    /\ pc' = [pc EXCEPT ![t] = "publish"]
    /\ UNCHANGED <<index, n, idx, free, acc, high, calls, bad>>

Publish(t) ==
    /\ pc[t] = "publish"
    /\ LET b == Blk(n[t]) IN
       index' = [blk |-> IF idx[t].blk >= b \/ ~MoveIndex THEN idx[t].blk ELSE b,
                 cnt |-> IF UseCounter THEN (idx[t].cnt + 1) % Counter ELSE 0]
    /\ bad' = IF n[t] \in acc THEN bad \cup {<<"twice", n[t]>>} ELSE bad
    /\ acc' = acc \cup {n[t]}
    /\ high' = IF n[t] > high THEN n[t] ELSE high
    /\ pc' = [pc EXCEPT ![t] = "idle"]
    /\ UNCHANGED <<bits, n, idx, free, calls>>

Next == \E t \in Threads : \/ Start(t) \/ Load(t) \/ Read(t) \/ Recheck(t)
                           \/ Take(t) \/ Write(t) \/ Publish(t)
Spec == Init /\ [][Next]_vars
Fair == Spec /\ \A t \in Threads :
          WF_vars(Load(t) \/ Read(t) \/ Recheck(t) \/ Take(t) \/ Write(t) \/ Publish(t))

\* accepted at most once, and never refused without reason
NeverBad == bad = {}
\* no call blocks for ever
Returns == \A t \in Threads : pc[t] # "idle" ~> pc[t] = "idle"
=============================================================================
