---------------------------- MODULE PeerTableMC -----------------------------
EXTENDS PeerTable, Sequences, TLC, Json, IOUtils

CONSTANTS Addrs, Depth

VARIABLE script
vars == <<known, chan, script>>
Refused == {<<1, 1, 2>>, <<2, 2, 1>>}

Log(op, l, p, a) == script' = Append(script, [op |-> op, l |-> l, p |-> p, a |-> a])
Init == PInit /\ script = <<>>
Next == /\ Len(script) < Depth
        /\ \E l \in Locals, p \in Peers :
             \/ \E a \in Addrs, r \in {"added", "refused", "error"} : Add(l, p, a, 2, Refused, r) /\ Log("Add", l, p, a)
             \/ \E r \in {"removed", "unknown", "error"} : Remove(l, p, r) /\ Log("Remove", l, p, 0)
             \/ \E a \in Addrs \cup {0}, d \in BOOLEAN : Packet(l, p, a, TRUE, Refused, d) /\ Log("Packet", l, p, a)
             \/ Establish(l, p, TRUE) /\ Log("Establish", l, p, 0)
Spec == Init /\ [][Next]_vars

\* known exactly since the last accepted add, with its address
Effective(i) == LET s == script[i] IN
    CASE s.op = "Add" -> Acceptable(s.p, s.a, 2, Refused)
      [] s.op = "Packet" -> s.a # 0 /\ Acceptable(s.p, s.a, 1, Refused)
      [] s.op = "Remove" -> TRUE
      [] OTHER -> FALSE
Last(l, p) == LET I == {i \in 1..Len(script) : script[i].l = l /\ script[i].p = p /\ Effective(i)} IN
              IF I = {} THEN 0 ELSE LET m == CHOOSE i \in I : \A j \in I : j <= i IN
                IF script[m].op = "Remove" THEN 0 ELSE script[m].a
KnownIsLast == \A l \in Locals, p \in Peers : known[<<l, p>>] = Last(l, p)
\* an action on one pair does not touch another
Apart == [][ \A k \in Locals \X Peers :
               LET s == script'[Len(script')] IN
               k # <<s.l, s.p>> => known'[k] = known[k] /\ (k \in chan <=> k \in chan') ]_vars

Emit == Len(script) = Depth /\ "SCRIPTS" \in DOMAIN IOEnv =>
          Serialize(ToJson([script |-> script]) \o "\n", IOEnv.SCRIPTS,
            [format |-> "TXT", charset |-> "UTF-8",
             openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
