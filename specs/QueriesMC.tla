----------------------------- MODULE QueriesMC ------------------------------
EXTENDS Queries, TLC, Json, IOUtils

CONSTANTS N, Timeouts, Answers, Depth

VARIABLES script, now, results, started

vars == <<pending, script, now, results, started>>

Init == QInit /\ script = <<>> /\ now = 0 /\ results = <<>> /\ started = 0

Log(op) == script' = Append(script, op)
Outs(S) == UNION {[D -> Answers \cup {None}] : D \in SUBSET S}
Record(out) == results' = [q \in DOMAIN results \cup DOMAIN out |->
                              IF q \in DOMAIN out THEN Append(IF q \in DOMAIN results THEN results[q] ELSE <<>>, out[q])
                              ELSE results[q]]

DoStart == \E to \in Timeouts :
    /\ started < N
    /\ started' = started + 1
    /\ Start(started', now + to, FALSE)
    /\ Log([op |-> "Start", to |-> to])
    /\ UNCHANGED <<now, results>>
DoFail == /\ started < N /\ started' = started + 1
          /\ Log([op |-> "Fail", to |-> 100])
          /\ UNCHANGED <<pending, now, results>>
DoAnswer == \E q \in 0..started, a \in Answers : \E out \in Outs({q} \cap DOMAIN pending) :
    /\ now' = now + 1
    /\ Step(<<<<q, a>>>>, now, now', out)
    /\ Record(out)
    /\ Log([op |-> "Answer", q |-> q, a |-> a])
    /\ UNCHANGED started
DoWait == \E ms \in {150, 700} : \E out \in Outs(DOMAIN pending) :
    /\ now' = now + ms
    /\ Step(<<>>, now, now', out)
    /\ Record(out)
    /\ Log([op |-> "Wait", ms |-> ms])
    /\ UNCHANGED started
DoCancel == \E q \in 1..started : Cancel(q) /\ Log([op |-> "Cancel", q |-> q]) /\ UNCHANGED <<now, results, started>>

Next == Len(script) < Depth /\ (DoStart \/ DoFail \/ DoAnswer \/ DoWait \/ DoCancel)
Spec == Init /\ [][Next]_vars
View == <<script, pending, results>>

\* at most one result, an answer only if it was sent to this very query in time
AtMostOnce == \A q \in DOMAIN results : Len(results[q]) <= 1
Genuine == \A q \in DOMAIN results : results[q][1] # None =>
              \E i \in 1..Len(script) : script[i].op = "Answer" /\ script[i].q = q /\ script[i].a = results[q][1]
NothingKept == \A q \in DOMAIN pending : pending[q].deadline > now - Slack
Over == \A q \in DOMAIN results : q \notin DOMAIN pending

Emit == Len(script) = Depth /\ "SCRIPTS" \in DOMAIN IOEnv =>
          Serialize(ToJson([script |-> script]) \o "\n", IOEnv.SCRIPTS,
            [format |-> "TXT", charset |-> "UTF-8",
             openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
