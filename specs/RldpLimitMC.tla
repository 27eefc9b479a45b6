----------------------------- MODULE RldpLimitMC ----------------------------
EXTENDS RldpLimit, ScriptKit

CONSTANTS Max, N, Depth

VARIABLES waiting, running, n, script, over
vars == <<waiting, running, n, script, over>>

Init == waiting = <<>> /\ running = {} /\ n = 0 /\ script = <<>> /\ over = {}

Items(s) == {s[i] : i \in 1..Len(s)}
Free(p, run) == Max - Cardinality(To(run, p))
\* in the order of the requests
RECURSIVE Fill(_, _, _)
Fill(w, run, i) ==
    IF i > Len(w) THEN <<w, run>>
    ELSE IF Free(w[i][2], run) > 0
         THEN Fill(SubSeq(w, 1, i - 1) \o SubSeq(w, i + 1, Len(w)), run \cup {w[i]}, i)
         ELSE Fill(w, run, i + 1)

Apply(w, run, what) ==
    LET f == Fill(w, run, 1) IN
    /\ waiting' = f[1] /\ running' = f[2]
    /\ script' = Append(script, what)

Ask == /\ n < N /\ n' = n + 1
       /\ \E p \in Peers : Apply(Append(waiting, <<n + 1, p>>), running, <<"ask", n + 1, p>>)
       /\ UNCHANGED over
Finish == \E q \in running, how \in {"answer", "garbage"} :
            /\ over' = over \cup {q} /\ Apply(waiting, running \ {q}, <<how, q[1], q[2]>>)
            /\ UNCHANGED n
Cancel == \E q \in Items(waiting) \cup running :
            /\ over' = over \cup {q}
            /\ Apply(SelectSeq(waiting, LAMBDA x : x # q), running \ {q}, <<"cancel", q[1], q[2]>>)
            /\ UNCHANGED n
Next == Len(script) < Depth /\ (Ask \/ Finish \/ Cancel)
Spec == Init /\ [][Next]_vars

\* every step is one the property allows
Allowed == [][LET new == {q \in Items(waiting') \cup running' \cup over' : q \notin Items(waiting) \cup running \cup over}
                  gone == over' \ over
                  started == running' \ running
              IN Step(Max, Items(waiting), running, new, gone \cap running, {}, gone \ running, started, Items(waiting'), running')]_vars
Limit == Good(Max, Items(waiting), running)
Emit == Len(script) = Depth => EmitScript(script)
=============================================================================
