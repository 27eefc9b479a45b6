----------------------------- MODULE DispatchMC -----------------------------
EXTENDS Dispatch, TLC, Json, IOUtils

CONSTANTS MaxSubs, Depth

VARIABLES script, seen
vars == <<subs, running, script, seen>>

Actions(k) == IF k = "message" THEN {"take", "pass", "fail"} ELSE {"take", "silent", "pass", "fail"}
\* constructor 0 and 1 are interesting, 2 and 3 are passed on
ActSets(k) == {<<a, b, "pass", "pass">> : a \in {"pass", "take"}, b \in Actions(k)}

Init == DInit /\ script = <<>> /\ seen = <<>>
DoSubscribe == \E k \in Kinds : \E a \in ActSets(k) :
    /\ Len(subs[k]) < MaxSubs
    /\ Subscribe(k, a, ~running)
    /\ script' = Append(script, [op |-> "Subscribe", kind |-> k, acts |-> a])
    /\ UNCHANGED seen
DoStart == /\ StartNode(~running)
           /\ script' = Append(script, [op |-> "StartNode"])
           /\ UNCHANGED seen
DoPacket == \E k \in Kinds, c \in {-1, 0, 1} :
    /\ ~(k = "message" /\ c = 0)
    /\ LET it == <<k, c, 1>> IN
       /\ Packet(<<it>>, Calls(it), Answers(it))
       /\ script' = Append(script, [op |-> "Packet", items |-> <<<<k, c>>>>])
       /\ seen' = Append(seen, [it |-> it, calls |-> Calls(it), answers |-> Answers(it), subs |-> subs])
Next == Len(script) < Depth /\ (DoSubscribe \/ DoStart \/ DoPacket)
Spec == Init /\ [][Next]_vars

Ok(x) ==
    LET k == x.it[1]
        c == x.it[2]
        n == Len(x.calls)
    IN
    \* in order, each at most once, none after the one that takes it
    /\ \A i \in 1..n : x.calls[i][2] = i
    /\ \A i \in 1..(n - 1) : x.subs[k][i][c + 1] = "pass"
    /\ n > 0 /\ n < Len(x.subs[k]) => x.subs[k][n][c + 1] # "pass"
    /\ Len(x.answers) <= 1
    /\ (k = "query" /\ c = 0 /\ \A i \in 1..Len(x.subs[k]) : x.subs[k][i][1] = "pass") => x.answers = <<<<0, 1>>>>
OnceInOrder == \A i \in 1..Len(seen) : Ok(seen[i])
NothingBeforeStart == seen # <<>> => running

Emit == Len(script) = Depth /\ "SCRIPTS" \in DOMAIN IOEnv =>
          Serialize(ToJson([script |-> script]) \o "\n", IOEnv.SCRIPTS,
            [format |-> "TXT", charset |-> "UTF-8",
             openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
