----------------------------- MODULE FragmentMC -----------------------------
(* Every sequence of parts of two messages, clean and bad ones, with         *)
(* duplicates, loss (a part never arrives) and expiry.                       *)
EXTENDS Fragment, TLC, Json, IOUtils

CONSTANTS Keys, Length, Bad, Depth

VARIABLES script, now,
    got,       \* ghost: clean parts received since the transfer began
    delivered  \* ghost: number of deliveries of each message

\* two ways to cut the message, as used by different senders
Cuts == {<<0, 1>>, <<1, 1>>, <<2, 1>>, <<0, 2>>} \cup {<<1, Length - 1>>, <<2, Length - 2>>}
BadParts == IF Bad THEN {<<0, 1>>, <<1, 1>>, <<1, 0>>} ELSE {}

vars == <<tr, script, now, got, delivered>>

Init == /\ FInit /\ script = <<>> /\ now = 0
        /\ got = [k \in Keys |-> {}] /\ delivered = [k \in Keys |-> 0]

Arrive == \E k \in Keys, ok \in BOOLEAN : \E p \in (IF ok THEN Cuts ELSE BadParts), out, afterwards \in BOOLEAN :
    /\ Part(k, Length, p, Length, ok, now, out, afterwards)
    /\ script' = Append(script, [k |-> k, off |-> p[1], len |-> p[2], ok |-> ok])
    /\ delivered' = [delivered EXCEPT ![k] = IF out THEN @ + 1 ELSE @]
    /\ got' = [got EXCEPT ![k] = IF ~afterwards THEN {}
                                 ELSE IF ok THEN @ \cup {p} ELSE @]
    /\ UNCHANGED now
Tick == \E gone \in SUBSET DOMAIN tr :
    /\ now' = now + 2 * Timeout + 1000
    /\ Expire(now', gone)
    /\ script' = Append(script, [wait |-> TRUE])
    /\ got' = [k \in Keys |-> IF k \in gone THEN {} ELSE got[k]]
    /\ UNCHANGED delivered
Next == Len(script) < Depth /\ (Arrive \/ (Len(script) > 0 /\ "k" \in DOMAIN script[Len(script)] /\ Tick))
Spec == Init /\ [][Next]_vars
View == <<script, tr, got>>

\* a broken transfer ends
Ends == \A k \in DOMAIN tr : ~Over(tr[k])
\* an idle transfer does not stay
Gone == \A k \in DOMAIN tr : now - tr[k].last < 2 * Timeout + 1000
\* a clean transfer has exactly what has arrived and is not complete
Faithful == \A k \in DOMAIN tr : ~tr[k].dirty => tr[k].parts = got[k] /\ ~Complete(tr[k], Length)
\* a message is delivered by a clean transfer exactly when the last part arrives
Covered(k, p) == UNION {x[1]..(x[1] + x[2] - 1) : x \in got[k] \cup {p}} = 0..(Length - 1)
DeliveredIffComplete ==
    [][ \A k \in Keys :
          (Len(script') > Len(script) /\ "k" \in DOMAIN script'[Len(script')] /\ script'[Len(script')].k = k)
            => LET e == script'[Len(script')] IN
               (k \notin DOMAIN tr \/ ~tr[k].dirty) /\ Clean(Current(k, now, Length), <<e.off, e.len>>, e.ok)
                 => (delivered'[k] = delivered[k] + 1 <=> Covered(k, <<e.off, e.len>>)) ]_vars

Emit == Len(script) = Depth /\ "SCRIPTS" \in DOMAIN IOEnv =>
          Serialize(ToJson([script |-> script]) \o "\n", IOEnv.SCRIPTS,
            [format |-> "TXT", charset |-> "UTF-8",
             openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
