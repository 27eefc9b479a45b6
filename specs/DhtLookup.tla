----------------------------- MODULE DhtLookup ------------------------------
(* Value lookups of a DHT node: which nodes are asked, when, and what of     *)
(* their answers is handed out.                                              *)
EXTENDS Integers, Sequences, FiniteSets

(* A value in an answer:
     rule   "signed", "members" or another one
     val    its contents
     key    it belongs to the key which was asked for
     owner  this key contains the identity of the public key beside it
     keysig, valsig  the description and the value are signed by this public
            key (signed values)
     form   the public key and the key are of the right kind (lists of
            members)
     nodes  the entries of such a list: [member, version, is signed by the
            member for this overlay]
     fresh  it has not expired
     whole  it can be read as what the caller expects                       *)
Genuine(a) ==
    /\ a.key /\ a.owner /\ a.form /\ a.fresh
    /\ \/ a.rule = "signed" /\ a.keysig /\ a.valsig
       \/ a.rule = "members" /\ \A i \in DOMAIN a.nodes : a.nodes[i][3]
Usable(a) == Genuine(a) /\ a.whole

\* --- the nodes to be asked ----------------------------------------------
MaxParallel == 6

\* Enough of the nearest candidates were asked. (batch 0: all of them)
\* Each one which was not has as many asked ones which are at least as near.
Suffices(asked, candidates, aff, batch) ==
    \A q \in candidates \ asked :
        /\ batch > 0
        /\ Cardinality({p \in asked : aff[p] >= aff[q]}) >= batch
=============================================================================
