------------------------------ MODULE OverlaysMC ----------------------------
EXTENDS Overlays, TLC, Json, IOUtils

CONSTANTS Ids, Handlers, Depth, Scripts, Mixed
\* Mixed: symbols of all overlays are put together (wrong)
VARIABLES s, script, sent, out
\* sent: the packets addressed to an existing overlay; out: what was handed out
vars == <<s, script, sent, out>>
K == 2
C == 1

Init == s = Start /\ script = <<>> /\ sent = {} /\ out = {}

Do(o, op) == script' = IF Scripts THEN Append(script, op) ELSE <<[op |-> op.op, o |-> o]>>
There(o, x) == IF o \in DOMAIN s.made THEN sent' = sent \cup {x} ELSE UNCHANGED sent

DoMake == \E o \in Ids, kind \in {"public", "private"} :
            /\ Do(o, [op |-> "Make", o |-> o, kind |-> kind])
            /\ s' = Make(s, o, kind, {o}) /\ UNCHANGED <<sent, out>>
DoSub == \E o \in Ids, h \in Handlers :
            /\ Do(o, [op |-> "Sub", o |-> o, h |-> h])
            /\ s' = Subscribe(s, o, h) /\ UNCHANGED <<sent, out>>
DoOrd == \E o \in Ids :
            /\ Do(o, [op |-> "Ord", o |-> o])
            /\ s' = Ord(s, o, C) /\ There(o, <<o, 0>>)
            /\ out' = out \cup OrdSeen(s, o, C, 0).given
DoFec == \E o \in Ids, i \in 1..K :
            /\ Do(o, [op |-> "Fec", o |-> o, i |-> i])
            /\ There(o, <<o, i>>)
            /\ IF Mixed /\ o \in DOMAIN s.made
                 THEN LET t == [s EXCEPT !.fec = @ \cup {<<o, C, i>>}]
                          all == {x[3] : x \in t.fec}
                      IN /\ s' = [t EXCEPT !.given = IF all = 1..K THEN @ \cup {<<o, C>>} ELSE @]
                         /\ out' = out \cup s'.given
                 ELSE s' = Fec(s, o, C, i, K) /\ out' = out \cup FecSeen(s, o, C, i, K, 0).given
DoAsk == \E o \in Ids, kind \in {"peers", "app"} :
            /\ Scripts
            /\ Do(o, [op |-> "Ask", o |-> o, kind |-> kind])
            /\ UNCHANGED <<s, sent, out>>
Next == (Scripts => Len(script) < Depth) /\ (DoMake \/ DoSub \/ DoOrd \/ DoFec \/ DoAsk)
Spec == Init /\ [][Next]_vars

\* What is handed out by an overlay was sent to it
OwnOnly == \A x \in out : <<x[1], 0>> \in sent \/ \A i \in 1..K : <<x[1], i>> \in sent
\* ... and everything that was sent is handed out
All == \A o \in Ids : <<o, 0>> \in sent \/ (\A i \in 1..K : <<o, i>> \in sent) => <<o, C>> \in out
\* A step concerning one overlay leaves everything of others as it is
Of(t, o) == <<IF o \in DOMAIN t.made THEN t.made[o] ELSE <<>>, IF o \in DOMAIN t.subs THEN t.subs[o] ELSE 0,
              {x \in t.ord : x[1] = o}, {x \in t.fec : x[1] = o}, {x \in t.given : x[1] = o}>>
Isolated == [][\A o \in Ids : o # script'[Len(script')].o => Of(s', o) = Of(s, o)]_vars
FirstKept == [][/\ \A o \in DOMAIN s.made : o \in DOMAIN s'.made /\ s'.made[o] = s.made[o]
                /\ \A o \in DOMAIN s.subs : o \in DOMAIN s'.subs /\ s'.subs[o] = s.subs[o]]_vars

Emit == Scripts /\ Len(script) = Depth /\ "SCRIPTS" \in DOMAIN IOEnv =>
          Serialize(ToJson([script |-> script]) \o "\n", IOEnv.SCRIPTS,
            [format |-> "TXT", charset |-> "UTF-8",
             openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
