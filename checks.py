"""The checks: models, trace specifications and notes of every property."""

COMMON = [
    "TLC and the Java runtime are correct; the recorded events are what the code did "
    "(the harness uses its own implementation of the wire format and crypto libraries)",
    "the code runs on an in-memory datagram network and a virtual clock "
    "(cfg everscale_verif), one runtime thread unless stated otherwise",
]

CHECKS = {
    "A01": dict(
        level="model_checking",
        models=[dict(spec="AdnlAuthMC.tla", cfg="AdnlAuthMC.cfg", scripts=True)],
        trace=("AdnlTrace.tla", "AdnlTrace.cfg"),
        rule="model-enumerated kinds of packets (transport, source, signature, address list, version, tampering) in every state of a pair and both settings of both options; random histories of genuine, altered, replayed and misdirected packets of three peers to two identities; addresses, channels, queries, deliveries and everything the node sends are compared after each packet",
        note="exhaustive over the kinds of one packet in the model; a sample of them in quick and all of them in thorough are replayed into a node with own keys and crypto; cryptographic strength itself is assumed",
    ),
    "A02": dict(
        level="model_checking",
        models=[dict(spec="ChannelsMC.tla", cfg="ChannelsScripts.cfg", scripts=True),
                dict(spec="ChannelsMC.tla", cfg="ChannelsMC.cfg"),
                dict(spec="ChannelsMC.tla", cfg="ChannelsHistoryMC.cfg"),
                dict(spec="ChannelsMC.tla", cfg="ChannelsUnknownMC.cfg")],
        trace=("ChannelsTrace.tla", "ChannelsTrace.cfg"),
        rule="model-enumerated and random schedules of two real nodes: messages, queries, delivery of any packet sent so far (again, late, out of order), loss, resets of the pair, restarts; the contents of sealed packets are predicted by the specification; after each schedule the network is healed and both directions must deliver",
        note="exhaustive for schedules of 7-8 (thorough: 9) steps with at most two resets or restarts in the model, including recovery from each of their states; sampled on the real nodes",
    ),
    "A03": dict(
        level="model_checking",
        models=[dict(spec="AdnlPairsMC.tla", cfg="AdnlPairsMC.cfg", scripts=True)],
        trace=("AdnlTrace.tla", "AdnlTrace.cfg"),
        rule="model-enumerated and random histories of two identities that talk to the same peers (handshakes, offers, channels, queries, resets, removals); all pairs are compared after each step and probed in both directions at the end",
        note="exhaustive for short histories of two identities and one peer in the model, sampled on the node",
    ),
    "A07": dict(
        level="model_checking",
        models=[dict(spec="AdnlDatesMC.tla", cfg="AdnlDatesMC.cfg", scripts=True),
                dict(spec="AdnlDatesMC.tla", cfg="AdnlDatesMC4.cfg", tiers=("thorough",), workers=6)],
        trace=("AdnlTrace.tla", "AdnlTrace.cfg"),
        rule="model-enumerated and random histories of packets with older, equal, newer, limit and future incarnations of both sides, fresh and repeated numbers, restarts of both sides, resets, removals; every pair is probed at the end",
        note="exhaustive for histories of 3 (thorough: 4) steps in the model, sampled on the node",
    ),
    "A12": dict(
        level="model_checking",
        models=[dict(spec="AdnlDropMC.tla", cfg="AdnlDropMC.cfg", scripts=True),
                dict(spec="AdnlDropMC.tla", cfg="AdnlDropMC2.cfg"),
                dict(spec="AdnlDropMC.tla", cfg="AdnlDropMC6.cfg", tiers=("thorough",), workers=6)],
        trace=("AdnlTrace.tla", "AdnlTrace.cfg"),
        rule="model-enumerated and random histories of queries that fail at chosen times, packets heard in the channel (good, altered, handshakes), replacement of channels and time, with exact virtual time around the limit",
        note="exhaustive for histories of 4 (thorough: 6) steps in the model, sampled on the node",
    ),
    "A13": dict(
        level="model_checking",
        models=[dict(spec="AdnlKindMC.tla", cfg="AdnlKindMC.cfg", scripts=True),
                dict(spec="AdnlKindMC.tla", cfg="AdnlKindAnyMC.cfg")],
        trace=("AdnlTrace.tla", "AdnlKindTrace.cfg"),
        rule="model-enumerated and random histories of bursts of messages, queries, answers, packets of the peer by each kind of channel (with and without numbers, altered), new channels, restarts, resets and removals, with and without packet history and preference of priority channels; the channel of every packet of the node is compared",
        note="exhaustive for histories of 3 (thorough: 4) steps in the model, sampled on the node",
    ),
    "A04": dict(
        level="model_checking",
        models=[
            dict(spec="PacketHistoryMC.tla", cfg="PacketHistoryMC.cfg", scripts=True),
            dict(spec="PacketHistoryImpl.tla", cfg="PacketHistoryImplMC.cfg"),
            dict(spec="PacketHistoryImpl.tla", cfg="PacketHistoryImplNoUseCounter.cfg", expect="violation", tiers=("thorough",)),
            dict(spec="PacketHistoryImpl.tla", cfg="PacketHistoryImplNoMoveIndex.cfg", expect="violation", tiers=("thorough",)),
            dict(spec="PacketHistoryImpl.tla", cfg="PacketHistoryImplNoSetBitOnMove.cfg", expect="violation", tiers=("thorough",)),
        ],
        trace=("PacketHistoryTrace.tla", "PacketHistoryTrace.cfg"),
        rule="model-enumerated and random delivery orders on the history object, concurrent deliveries from threads, and packets with chosen numbers sent to a whole node",
        note="TLC: every interleaving of the window algorithm for 2-3 threads and small blocks; every recorded answer of the real object and node is checked against the abstract history",
    ),
    "A05": dict(
        level="model_checking",
        models=[
            dict(spec="FragmentMC.tla", cfg="FragmentMC.cfg", scripts=True),
            dict(spec="FragmentMC.tla", cfg="FragmentMC2.cfg"),
            dict(spec="FragmentImpl.tla", cfg="FragmentImplMC.cfg"),
            dict(spec="FragmentImpl.tla", cfg="FragmentImplNoDouble.cfg", expect="violation", tiers=("thorough",)),
        ],
        trace=("FragmentTrace.tla", "FragmentTrace.cfg"),
        rule="model-enumerated and random sequences of parts (true, altered, empty, overlapping, duplicated, expired) from scripted peers, the packets a node makes of messages of many sizes, whole messages between two nodes over a lossy reordering network, parts handled by several threads",
        note="exhaustive for short part sequences of small messages, sampled for sizes, orders and adversarial parts",
    ),
    "A06": dict(
        level="model_checking",
        models=[dict(spec="QueriesMC.tla", cfg="QueriesMC.cfg", scripts=True)],
        trace=("QueriesTrace.tla", "QueriesTrace.cfg"),
        rule="model-enumerated and random histories of queries (also failing, typed, large, cancelled), answers (right, foreign, late, repeated, unparsable, large) and time; many concurrent queries on several threads",
        note="exhaustive for short histories of two queries, sampled beyond; the pending table is compared after each step",
    ),
    "A08": dict(
        level="model_checking",
        models=[
            dict(spec="PeerTableMC.tla", cfg="PeerTableMC.cfg", scripts=True),
            dict(spec="PeerTableMC.tla", cfg="PeerTableMC4.cfg", tiers=("thorough",)),
        ],
        trace=("PeerTableTrace.tla", "PeerTableTrace.cfg"),
        rule="model-enumerated and random histories of adds (three contexts, filter, own address, unknown identity), removals, packets with good and bad address lists, channel packets, sends and new channels for two identities and two peers; the whole table is compared after each step",
        note="exhaustive for 3 (thorough: 4) steps, sampled beyond; the whole table is compared after each step",
    ),
    "A09": dict(
        level="model_checking",
        models=[dict(spec="KeystoreMC.tla", cfg="KeystoreMC.cfg", scripts=True)],
        trace=("KeystoreTrace.tla", "KeystoreTrace.cfg"),
        rule="every sequence of 3 (thorough: 4) additions of 3 keys under 3 tags, random longer ones, builder lists; all lookups are compared after each step",
        note="exhaustive for short sequences, sampled for long ones; all lookups compared after each step",
    ),
    "A10": dict(
        level="model_checking",
        models=[dict(spec="PeersSetMC.tla", cfg="PeersSetMC.cfg", scripts=True)],
        trace=("PeersSetTrace.tla", "PeersSetTrace.cfg"),
        rule="every sequence of 4 (thorough: 5) insertions and removals of 4 peers for capacities 1-3, random sequences of all operations on two sets; all views are compared after each step",
        note="exhaustive for short insertion sequences, sampled for all operations",
    ),
    "A11": dict(
        level="model_checking",
        models=[
            dict(spec="DispatchMC.tla", cfg="DispatchMC.cfg", scripts=True),
            dict(spec="DispatchMC.tla", cfg="DispatchMC5.cfg", tiers=("thorough",)),
        ],
        trace=("DispatchTrace.tla", "DispatchTrace.cfg"),
        rule="model-enumerated and random lists of subscribers (taking, passing, failing, silent) and packets with one or several messages and queries over all transports; every call of a subscriber and every answer is compared",
        note="exhaustive for two subscribers and short histories, sampled beyond",
    ),
    "R01": dict(
        level="model_checking",
        models=[dict(spec="RldpQueryMC.tla", cfg="RldpQueryMC.cfg"),
                dict(spec="RldpQueryMC.tla", cfg="RldpQueryShortMC.cfg", expect="violation"),
                dict(spec="RldpTransferMC.tla", cfg="RldpTransferMC.cfg")],
        trace=("RldpQueryTrace.tla", "RldpQueryTrace.cfg"),
        rule="random sets of concurrent queries in both directions between two real nodes, sizes from nothing to several parts, both compression settings, all kinds of handlers, over networks with loss, duplication, delay, reordering, altered packets and partitions; every call of a handler and every result is compared with what was asked; on networks that only lose, double, delay and alter some packets each answer must arrive. A puppet peer answers with other ids, other messages and broken ones",
        note="exhaustive for one query over a lossy network and for the assembly of its messages in the models; sampled on the nodes",
    ),
    "R02": dict(
        level="model_checking",
        models=[dict(spec="RldpReceiverMC.tla", cfg="RldpReceiverMC.cfg", scripts=True),
                dict(spec="RldpTransferMC.tla", cfg="RldpTransferMC.cfg")],
        trace=("RldpTransferTrace.tla", "RldpTransferTrace.cfg"),
        rule="model-enumerated sequences of chunks (parts, symbols, totals, parameters) and random ones with malformed, foreign, repeated and far repair symbols to a receiving node: each report and each delivery is compared; a puppet receiver with loss, late, lost, stale and bogus reports against a sending node (queries and answers of one to three parts): each symbol is compared with an own encoder and must be new",
        note="exhaustive for receivers of 4 chunks of a message of two parts and for sender, lossy network and receiver together in the models; sampled on the node",
    ),
    "R03": dict(
        level="model_checking",
        models=[dict(spec="RldpLimitMC.tla", cfg="RldpLimitMC.cfg", scripts=True),
                dict(spec="RldpQueryMC.tla", cfg="RldpQueryMC.cfg")],
        trace=("RldpLimitTrace.tla", "RldpLimitTrace.cfg"),
        rule="model-enumerated and random histories of queries to two peers which answer, answer garbage, only confirm, begin an answer, send malformed symbols or stay silent; cancellations, timeouts, removed and added peers, clean-ups of the limiter, incoming queries whole and cut, answered, refused and failing ones; the transfers seen on the wire are compared with the limit after each step, and after the retention times all tables have to be empty; also pairs of nodes on networks with faults",
        note="exhaustive for 6 steps with 4 queries, 2 peers and a limit of 2 in the model; retention times of both sides exhaustive in RldpQueryMC; sampled on the node",
    ),
    "R04": dict(
        level="model_checking",
        models=[dict(spec="RldpSizesMC.tla", cfg="RldpSizesMC.cfg"),
                dict(spec="RldpSizesMC.tla", cfg="RldpSizesNoBoundedMC.cfg", expect="violation"),
                dict(spec="RldpSizesMC.tla", cfg="RldpSizesNoEscapeMC.cfg", expect="violation"),
                dict(spec="RldpSizesMC.tla", cfg="RldpSizesNoCheckPlainMC.cfg", expect="violation"),
                dict(spec="RldpSizesScripts.tla", cfg="RldpSizesScripts.cfg", scripts=True)],
        trace=("RldpSizesTrace.tla", "RldpSizesTrace.cfg"),
        rule="all combinations of limits, compression settings, sizes around the limits and contents (random, easily compressed, itself the outcome of a compression of something small or huge) of query and answer between two nodes, enumerated by the model; also sizes next to each other, and peers with their own encoder which announce any limit or answer with payloads that decode to more than the limit",
        note="every way through both nodes for all small sizes in the model; sampled sizes for every combination on the node",
    ),
    "D01": dict(
        level="model_checking",
        models=[dict(spec="DhtStorageMC.tla", cfg="DhtSignedMC.cfg", scripts=True),
                dict(spec="DhtStorageMC.tla", cfg="DhtSignedBadMC.cfg")],
        trace=("DhtStorageTrace.tla", "DhtStorageTrace.cfg"),
        rule="model-enumerated and random histories of stores by a peer and by the node itself: valid, expired and expiring values, forged signatures of key and value, keys of others, unsuited public keys, too long names, too large indices, other update rules, replays of earlier values; after each step all keys are looked up over the network and compared with the specification, together with the number of stored values",
        note="exhaustive for 4 stores or clock steps with two keys in the model (5 with every reason to reject); sampled on the node",
    ),
    "D02": dict(
        level="model_checking",
        models=[dict(spec="DhtStorageMC.tla", cfg="DhtMembersMC.cfg", scripts=True),
                dict(spec="DhtStorageMC.tla", cfg="DhtMembersAllMC.cfg")],
        trace=("DhtStorageTrace.tla", "DhtStorageTrace.cfg"),
        rule="model-enumerated and random histories of stores of lists of overlay members: entries of several versions, forged ones, ones for another overlay, empty lists, lists under other keys, with signatures, other rules or unreadable contents, expiry dates before and after the stored one; after each step all keys are looked up over the network and compared with the specification",
        note="exhaustive for 3 stores or clock steps in the model with all lists of one or two entries; sampled on the node",
    ),
    "D04": dict(
        level="model_checking",
        models=[dict(spec="DhtPeersMC.tla", cfg="DhtPeersMC.cfg", scripts=True),
                dict(spec="DhtPeersMC.tla", cfg="DhtPeersAllMC.cfg")],
        trace=("DhtPeersTrace.tla", "DhtPeersTrace.cfg"),
        rule="model-enumerated and random histories of announcements of DHT nodes (by calls, as prefixes of queries, in answers to lookups and to searches for more nodes): acceptable, forged, without address or with an expired or too new one, of the node itself, refused by the filter; after each one the sizes of the table are compared, and what a peer is told when it asks for the nearest nodes to a key or for an unknown value",
        note="exhaustive for 3 announcements of two nodes with two versions in the model; sampled on the node with up to 40 nodes",
    ),
    "D05": dict(
        level="model_checking",
        models=[dict(spec="DhtPeersMC.tla", cfg="DhtPenaltiesMC.cfg", scripts=True),
                dict(spec="DhtPeersMC.tla", cfg="DhtPeersAllMC.cfg")],
        trace=("DhtPeersTrace.tla", "DhtPeersTrace.cfg"),
        rule="model-enumerated and random histories of answered and unanswered pings, searches for nodes and values, stores and lookups among announced nodes; after each step the set of bad nodes is compared with the points of the specification, and the nodes which a lookup asks with the ones which are not bad",
        note="exhaustive for 6 queries or lookups with two nodes in the model; sampled on the node with up to 40 nodes and thresholds from 0 to 10",
    ),
    "D03": dict(
        level="model_checking",
        models=[dict(spec="DhtLookupMC.tla", cfg="DhtLookupMC.cfg", scripts=True)],
        trace=("DhtLookupTrace.tla", "DhtLookupTrace.cfg"),
        rule="lookups of values, addresses and overlay members by all calls of the node, in which puppet nodes answer with genuine values, values of other keys and owners, forged signatures of key and value, other update rules, lists with entries of others or of other overlays, expired values and unreadable ones; each value handed out is compared with what was answered",
        note="every fault of an answer one at a time and sampled combinations over several nodes; the rule for a genuine value is explicit in the specification",
    ),
    "D06": dict(
        level="model_checking",
        models=[dict(spec="DhtLookupMC.tla", cfg="DhtLookupMC.cfg", scripts=True),
                dict(spec="DhtLookupMC.tla", cfg="DhtLookupSkipMC.cfg", expect="violation"),
                dict(spec="DhtLookupMC.tla", cfg="DhtLookupDropMC.cfg", expect="violation")],
        trace=("DhtLookupTrace.tla", "DhtLookupTrace.cfg"),
        rule="model-enumerated and random lookups over sets of nodes with all orders of distances, bad nodes, nodes learnt during the lookup, answers in time, late or missing, callers which read slowly or stop; every question on the wire, every value handed out and the end of the lookup are compared with the specification",
        note="exhaustive for 3 nodes (wide: 4) with all distances, batch sizes and outcomes in the model; sampled on the node with up to 30 nodes",
    ),
    "D07": dict(
        level="model_checking",
        models=[dict(spec="DhtPublishMC.tla", cfg="DhtPublishMC.cfg", scripts=True),
                dict(spec="DhtPublishMC.tla", cfg="DhtPublishDeepMC.cfg", tiers=("thorough",)),
                dict(spec="DhtPublishMC.tla", cfg="DhtPublishFirstMC.cfg", expect="violation")],
        trace=("DhtPublishTrace.tla", "DhtPublishTrace.cfg"),
        rule="model-enumerated and random histories of networks of two to five real DHT nodes: publications of values and addresses (all ways of the API, right and wrong keys, expiry dates, only locally, with and without a check), of overlay members, lookups, announcements, searches for more nodes, nodes which go away and return, clock steps; the outcome of every call, what each node then hands out to an outsider, and whom it knows are compared with the specification",
        note="exhaustive for 3 operations of three nodes in the model (thorough: 5); sampled on the nodes with up to 25 operations",
    ),
    "O01": dict(
        level="model_checking",
        models=[dict(spec="BroadcastMC.tla", cfg="BroadcastMC.cfg", scripts=True),
                dict(spec="BroadcastMC.tla", cfg="BroadcastDeepMC.cfg", tiers=("thorough",)),
                dict(spec="BroadcastMC.tla", cfg="BroadcastNoVerifyMC.cfg", expect="violation"),
                dict(spec="BroadcastMC.tla", cfg="BroadcastSharedMC.cfg", expect="violation")],
        trace=("BroadcastTrace.tla", "BroadcastTrace.cfg"),
        rule="model-enumerated and random sequences of genuine, forged, altered and meaningless packets of ordinary and FEC broadcasts of several sources; every packet that is passed on and every broadcast handed out is compared with the specification",
        note="exhaustive for 3 (thorough: 4) packets of two sources in the model; sampled on the node",
    ),
    "O02": dict(
        level="model_checking",
        models=[dict(spec="BroadcastMC.tla", cfg="BroadcastTimeScripts.cfg", scripts=True),
                dict(spec="BroadcastMC.tla", cfg="BroadcastTimeMC.cfg"),
                dict(spec="BroadcastMC.tla", cfg="BroadcastShortMC.cfg", expect="violation")],
        trace=("BroadcastTrace.tla", "BroadcastTrace.cfg"),
        rule="model-enumerated and random histories of packets, own broadcasts, time and collections of the log; recipients of every packet and every broadcast handed out are compared with the specification",
        note="exhaustive for 6 (thorough: 7) steps of two broadcasts in the model; sampled on the node",
    ),
    "O03": dict(
        level="model_checking",
        models=[dict(spec="BroadcastMC.tla", cfg="BroadcastMC.cfg", scripts=True),
                dict(spec="BroadcastMC.tla", cfg="BroadcastDeepMC.cfg", tiers=("thorough",)),
                dict(spec="BroadcastMC.tla", cfg="BroadcastSharedMC.cfg", expect="violation")],
        trace=("BroadcastTrace.tla", "BroadcastTrace.cfg"),
        rule="FEC broadcasts of many sizes under loss, duplication and reordering, between packets of other sources and altered ones; packets sent by a node are checked with an independent decoder and received by another node",
        note="exhaustive for 3 (thorough: 4) packets with 2 of 3 symbols in the model; sampled on the node with up to 600 kB",
    ),
    "O04": dict(
        level="model_checking",
        models=[dict(spec="OverlayPeersMC.tla", cfg="OverlayPeersScripts.cfg", scripts=True),
                dict(spec="OverlayPeersMC.tla", cfg="OverlayPeersMC.cfg"),
                dict(spec="OverlayPeersMC.tla", cfg="OverlayPeersVersMC.cfg")],
        trace=("OverlayPeersTrace.tla", "OverlayPeersTrace.cfg"),
        rule="model-enumerated and random sequences of admissions (valid, forged, foreign and refused entries), removals, queries for members, exchanges and renewals in public and private overlays; after every step the known and active peers, the neighbours (recipients of a broadcast), cached peers and counts are compared with the specification",
        note="all reachable states for 3 peers (thorough: and 2 versions) or 2 peers and 3 versions in the model; sampled on the node with up to 8 peers",
    ),
    "O05": dict(
        level="model_checking",
        models=[dict(spec="BcastQueueMC.tla", cfg="BcastQueueMC.cfg", scripts=True),
                dict(spec="BcastQueueImpl.tla", cfg="BcastQueueImpl.cfg"),
                dict(spec="BcastQueueImpl.tla", cfg="BcastQueueImplLost.cfg", expect="violation"),
                dict(spec="BcastQueueImpl.tla", cfg="BcastQueueImplEarly.cfg", expect="violation")],
        trace=("BcastQueueTrace.tla", "BcastQueueTrace.cfg"),
        rule="model-enumerated and random histories of receptions, waits and cancellations where the waits are polled one by one, through real broadcasts and on the queue itself; races of several threads",
        note="exhaustive for 6 steps of 2 consumers, and for all interleavings of the steps inside the queue with 2 (thorough: 3) consumers in the model; sampled with threads",
    ),
    "O06": dict(
        level="model_checking",
        models=[dict(spec="OverlaysMC.tla", cfg="OverlaysScripts.cfg", scripts=True),
                dict(spec="OverlaysMC.tla", cfg="OverlaysMC.cfg"),
                dict(spec="OverlaysMC.tla", cfg="OverlaysMixedMC.cfg", expect="violation")],
        trace=("OverlaysTrace.tla", "OverlaysTrace.cfg"),
        rule="model-enumerated and random sequences of registrations of overlays and handlers, broadcasts, meaningless messages and queries (ADNL and RLDP) for three overlays of one node; deliveries, relayed packets, handler calls and answers are compared with the specification after each, and messages and queries sent by each overlay",
        note="all reachable states of 2 (thorough: 3) overlays in the model; sampled on the node",
    ),
}

for _c in CHECKS.values():
    _c.setdefault("assumptions", COMMON)
