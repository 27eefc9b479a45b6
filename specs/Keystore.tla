------------------------------ MODULE Keystore ------------------------------
(* A09. The keystore: a partial one-to-one relation between tags and keys.   *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Keys, Tags

VARIABLE tagOf   \* [Keys -> Tags \cup {0}], 0: the key is not stored

KInit == tagOf = [k \in Keys |-> 0]

Free(t) == \A k \in Keys : tagOf[k] # t

CanAdd(tg, k, t) == \/ tg[k] = t
                    \/ tg[k] = 0 /\ \A o \in Keys : tg[o] # t

AddOk(k, t) == CanAdd(tagOf, k, t) /\ tagOf' = [tagOf EXCEPT ![k] = t]
AddFails(k, t) == ~CanAdd(tagOf, k, t) /\ tagOf' = tagOf

Add(k, t, ok) == IF ok THEN AddOk(k, t) ELSE AddFails(k, t)

\* what lookups return: the key found under a tag (0: none)
KeyByTag(t) == IF Free(t) THEN 0 ELSE CHOOSE k \in Keys : tagOf[k] = t
KeyById(k) == IF tagOf[k] = 0 THEN 0 ELSE k

\* adding a list of <<key, tag>> one after another to an empty store
RECURSIVE AddAll(_, _)
AddAll(tg, ops) ==
    IF ops = <<>> THEN [ok |-> TRUE, tagOf |-> tg]
    ELSE LET k == Head(ops)[1]
             t == Head(ops)[2] IN
         IF CanAdd(tg, k, t) THEN AddAll([tg EXCEPT ![k] = t], Tail(ops))
         ELSE [ok |-> FALSE, tagOf |-> tg]

\* Properties
OneToOne == \A a, b \in Keys : a # b /\ tagOf[a] # 0 => tagOf[a] # tagOf[b]
LookupsAgree == \A k \in Keys : tagOf[k] # 0 =>
                   /\ KeyById(k) = k
                   /\ KeyByTag(tagOf[k]) = k
\* a bound key keeps its tag
Stable == [][\A k \in Keys : tagOf[k] # 0 => tagOf'[k] = tagOf[k]]_tagOf
=============================================================================
