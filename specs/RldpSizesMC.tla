---------------------------- MODULE RldpSizesMC -----------------------------
(* The way of a query and its answer through both nodes, with small numbers: *)
(* what a payload looks like is its length, its length when compressed and   *)
(* the length of what it would itself decode to, if it happens to look like  *)
(* something compressed (-1 if not).                                         *)
EXTENDS Integers, Sequences, ScriptKit

CONSTANTS
    MaxLen,       \* longest payload
    Threshold,    \* not compressed up to this length
    Frame,        \* smallest compressed payload
    Bounded,      \* decoding stops at the limit of the node
    Escape,       \* what looks compressed is compressed in any case
    CheckPlain    \* the answer itself is compared with the announced limit

QHead == 2
AHead == 1
SmallSlack(n) == QHead + Frame

INSTANCE RldpSizes WITH Slack <- SmallSlack

Payloads == [len : 0..MaxLen, zip : {Frame, MaxLen + Frame}, looks : {-1, 0, 2 * MaxLen}]
\* (what looks compressed is not shorter than a frame)
Real(p) == /\ p.zip = MaxLen + Frame => p.len > 0
           /\ p.looks >= 0 => p.len >= Frame
Plain == {p \in Payloads : Real(p)}

\* on the wire: [size, kind, of]
Zip(p) == IF p.zip = Frame THEN Frame ELSE p.len + Frame
Wire(p, force) ==
    IF (force /\ p.len > Threshold) \/ (Escape /\ p.looks >= 0)
    THEN [size |-> Zip(p), zipped |-> TRUE, seen |-> p.len]
    ELSE [size |-> p.len, zipped |-> p.looks >= 0, seen |-> IF p.looks >= 0 THEN p.looks ELSE p.len]
Honest(p, w) == w.seen = p.len /\ (w.zipped => Escape \/ p.looks < 0)
Delivered(w, head, limit) ==
    /\ w.size + head <= limit
    /\ (w.zipped /\ Bounded) => w.seen <= limit

VARIABLES cfg, query, answer, x, at
vars == <<cfg, query, answer, x, at>>

Init == /\ cfg \in [la : 0..(2 * MaxLen), lb : 0..(2 * MaxLen), fa : BOOLEAN, fb : BOOLEAN]
        /\ query \in Plain /\ answer \in Plain
        /\ x = NewExchange(query.len, answer.len, cfg.la, cfg.lb)
        /\ at = "ask"

Q == Wire(query, cfg.fa)
A == Wire(answer, Q.zipped \/ cfg.fb)
Ask == /\ at = "ask"
       /\ IF Delivered(Q, QHead, cfg.lb)
          THEN at' = "called"
          ELSE at' = "none"
       /\ UNCHANGED <<cfg, query, answer, x>>
Call == /\ at = "called" /\ at' = "answer" /\ x' = Called(x)
        /\ UNCHANGED <<cfg, query, answer>>
Answer == /\ at = "answer"
          /\ IF A.size <= cfg.la /\ (CheckPlain => answer.len <= cfg.la)
             THEN at' = "sent" ELSE at' = "none"
          /\ UNCHANGED <<cfg, query, answer, x>>
Receive == /\ at = "sent"
           /\ at' = IF Delivered(A, AHead, cfg.la) THEN "answered" ELSE "none"
           /\ UNCHANGED <<cfg, query, answer, x>>
End == /\ at \in {"answered", "none"} /\ at' = "end"
       /\ x' = Ended(x, IF at = "answered" THEN "answer" ELSE "none")
       /\ UNCHANGED <<cfg, query, answer>>
Next == Ask \/ Call \/ Answer \/ Receive \/ End
Spec == Init /\ [][Next]_vars

CallAllowed == at = "called" => MayCall(x, Honest(query, Q)) /\ Q.seen <= cfg.lb
EndAllowed == /\ at = "answered" => MayEnd(x, "answer", Honest(answer, A), A.size)
              /\ at = "none" => MayEnd(x, "none", TRUE, 0)
SentAllowed == at = "sent" => A.size <= cfg.la /\ answer.len <= cfg.la
=============================================================================
