-------------------------- MODULE DhtStorageTrace ---------------------------
EXTENDS DhtStorage, TraceKit

CONSTANT Lag     \* seconds until an expired value is removed

VARIABLES s, lim
vars == <<s, lim, l>>

Nodes(list) == {[m |-> n[1], ver |-> n[2], ok |-> n[3]] : n \in Range(list)}
Value(e) == [rule |-> e.rule, ttl |-> e.ttl, val |-> e.val, name |-> e.name, idx |-> e.idx,
             owner |-> e.owner, keysig |-> e.keysig, valsig |-> e.valsig, form |-> e.form,
             nodes |-> Nodes(e.nodes)]

\* [key, found, ttl, val, nodes]
ViewIs(st, view, now) ==
    \A i \in 1..Len(view) :
      LET x == view[i] f == Found(st, x.k, now) IN
      /\ x.whole
      /\ f.ttl = x.ttl /\ f.val = x.val
      /\ IsInjective(x.nodes)
      /\ f.nodes = {<<n[1], n[2]>> : n \in Range(x.nodes)}

TInit == s = <<>> /\ lim = <<0, 0>> /\ l = 1
TReset == Is("Reset") /\ s' = <<>> /\ lim' = <<Ev.maxname, Ev.maxidx>>
TStore == LET v == Value(Ev) IN
          /\ Is("Store")
          /\ s' = Stored(s, Ev.k, v, Ev.now, lim[1], lim[2])
          /\ Ev.stored = Acceptable(v, Ev.now, lim[1], lim[2])
          /\ Ev.now = Ev.after
          /\ ViewIs(s', Ev.view, Ev.now)
          /\ Count(s', Ev.now, Lag, Ev.count)
          /\ UNCHANGED lim
TLook == /\ Is("Look") /\ Ev.now = Ev.after
         /\ ViewIs(s, Ev.view, Ev.now)
         /\ Count(s, Ev.now, Lag, Ev.count)
         /\ UNCHANGED <<s, lim>>
TNext == TReset \/ TStore \/ TLook
TSpec == TInit /\ [][TNext]_vars
=============================================================================
