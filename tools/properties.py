# The listed properties, in the format of properties.jsonl plus what MANIFEST.json needs.
PROPS = []
NOT_APPLICABLE = []


def q(over, text):
    return {"over": over, "text": text}


def anchors(files, mechanism, observe=(), state=()):
    return {
        "files": files,
        "mechanism": [{"name": n, "where": w} for n, w in mechanism],
        "observe_at": list(observe),
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "hook_needed": None,
    }


def prop(id, title, statement, quant, why, anch, technique, note):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=quant,
                      why_tests_cant=why, anchors=anch, technique=technique, level_note=note))


PBT = "property-based testing with proptest: "

prop("C01", "A record verifies exactly when every step was signed by the rule in force",
     "A Flo (a versioned, signed record) verifies if and only if its creation rule, every later rule change and its newest content carry signatures which satisfy the rule in force at that step. "
     "A content update or a rule change made with too few signatures or a wrong rule never ends in a verifying Flo, and neither does a Flo of which the ID-relevant parts, the content, the version, a rule or a signature was changed, exchanged with those of another Flo, dropped or repeated after signing. "
     "Checking any such altered Flo returns false or an error, and never panics; and the ID of a Flo is fixed by its creation and stays the same over all its updates.",
     q(["histories", "inputs"], "all histories of content updates and rule changes with honest and dishonest signers, and all ways to alter the serialised result"),
     "The unit tests verify one Flo with one or two fixed rules and no tampering; the guarantee is over all rules, histories and alterations.",
     anchors(["flmodules/src/flo/flo.rs", "flcrypto/src/access.rs", "flcrypto/src/signer_ed25519.rs"],
             [("Flo::verify", "flmodules/src/flo/flo.rs"), ("ConditionSignature::verify_digest", "flcrypto/src/access.rs"),
              ("Condition::equal_link", "flcrypto/src/access.rs")], ["Flo::verify", "Flo::flo_id"]),
     PBT + "stateful histories against a reference model of the rules, plus structural tampering of the serialised Flo",
     "Explores generated histories up to 6 steps over 5 keys and tampered copies of them; trusts ed25519 and SHA-256. The realm a Flo is filed under is not signed by design and is not altered.")

prop("C02", "Access rules accept exactly the signer sets they describe",
     "For every access rule built of keys, thresholds (n of several sub-rules), badges, always and never, and every set of correct signatures, the check passes if and only if the signers satisfy the rule; a corrupted signature, one by a stranger or one on another message never helps and never panics. "
     "Forecasting if some signers can sign, telling if a key takes part in a rule, resolving a rule from its stored form that holds only IDs (with missing keys, missing badges and badge versions that don't fit), and comparing a rule with a stored form follow the same meaning, for every nesting, threshold and badge version requirement (at least, exactly, at most).",
     q(["inputs"], "all rules up to the generated nesting, all signer sets and versions"),
     "The unit tests evaluate a dozen fixed rules; the meaning has to hold for every nesting, threshold and subset of signers.",
     anchors(["flcrypto/src/access.rs", "flcrypto/src/signer.rs", "flcrypto/src/signer_ed25519.rs"],
             [("ConditionSignature", "flcrypto/src/access.rs"), ("ConditionLink::can_sign / to_condition", "flcrypto/src/access.rs"),
              ("VersionSpec::accepts", "flcrypto/src/access.rs")], ["ConditionSignature::verify", "ConditionLink::can_sign"]),
     PBT + "random rule trees and signer sets against a reference evaluator",
     "Rule trees up to depth 5 and 6 keys; trusts ed25519.")

prop("C03", "Everything that is stored or sent is read back unchanged",
     "Every value which the nodes store or send (IDs, keys, signatures, rules, Flos and their content, realm storages with records and cuckoos, node configurations and infos, gossip events, and the messages of all modules and of the signalling server) is the same after writing and reading it in each of the used formats (yaml, json, message-pack), alone, in maps and lists, and wrapped in the messages of the modules below. "
     "This holds for every content, including IDs which look like numbers and strings which look like markup; what is read keeps its ID, its hash, its keys and its signatures working, and a message wrapped for one module is never unwrapped by another.",
     q(["inputs"], "all values of all stored and sent types"),
     "The unit tests write and read a few fixed values of some types in one format.",
     anchors(["flmodules/src/router/messages.rs", "flcrypto/src/tofrombytes.rs", "flmacro/src/lib.rs", "flmodules/src/flo/flo.rs", "flmodules/src/nodeconfig.rs", "flarch/src/nodeids.rs"],
             [("NetworkWrapper::wrap_yaml / unwrap_yaml", "flmodules/src/router/messages.rs"), ("VersionedSerde, AsU256", "flmacro/src/lib.rs"),
              ("ToFromBytes", "flcrypto/src/tofrombytes.rs")], ["serde_yaml", "serde_json", "rmp_serde", "NodeConfig::encode"]),
     PBT + "round trips of 26 kinds of generated values through all formats and wrappers",
     "Names used as keys of a map have at most 100 characters, as yaml cannot read keys of more than 1024; the private message types are covered by the checks of their modules.")

prop("C04", "What older versions stored is still understood",
     "Every document written by an older supported version (node configuration and node information with base64 keys and the old module flags, gossip events of versions 1 to 3 and those without a version) is read with the same meaning: the node keeps its keys, its ID, name, client and modules, and every event keeps its category, source, time and message and is found under its ID. "
     "A structure with several versions goes through each conversion exactly once in order, is always written in its newest version, reads that again unchanged, and refuses versions it doesn't know.",
     q(["inputs"], "all contents of all older versions"),
     "The unit tests read a single document for some of the old versions.",
     anchors(["flmacro/src/lib.rs", "flmodules/src/nodeconfig.rs", "flmodules/src/gossip_events/core.rs"],
             [("VersionedSerde", "flmacro/src/lib.rs"), ("EventsStorageSave", "flmodules/src/gossip_events/core.rs"), ("NodeInfoV2, NodeConfigV1", "flmodules/src/nodeconfig.rs")],
             ["NodeConfig::decode", "NodeInfo::decode", "EventsStorage::set"]),
     PBT + "generated documents in the layout of each older version against the meaning they were generated from",
     "The layouts of the old versions are those which the current code declares; the first version of the node information isn't supported by the code on purpose.")

prop("C05", "IDs are read exactly, and different things have different IDs",
     "Every text is either read as an ID (an even number of up to 64 hexadecimal characters, filled up with zeros to the right) or refused with an error, and never panics; the hexadecimal form and the bytes of an ID give the same ID again. "
     "The ID made from a domain and a list of parts, from data, from a list or from a map is the same exactly if these are the same: it doesn't depend on the order in which a map is kept, but on how the same bytes are split into domain and parts, for parts of every length including empty ones. "
     "Removing the existing or missing nodes of one list from another, looking for any or all of them, merging and slicing give exactly the nodes described, in their order.",
     q(["inputs"], "all texts, domains, lists of parts, maps and lists of IDs"),
     "The unit tests hash and parse a few fixed values; collisions only show for specially split inputs and lengths.",
     anchors(["flarch/src/nodeids.rs"],
             [("U256::from_str", "flarch/src/nodeids.rs"), ("U256::hash_domain_parts / to_varint", "flarch/src/nodeids.rs"), ("NodeIDs", "flarch/src/nodeids.rs")],
             ["U256::from_str", "U256::hash_data", "U256::hash_domain_hashmap", "NodeIDs::remove_missing"]),
     PBT + "generated texts against a reference parser, collision search over inputs with the same bytes, lists against a model",
     "Trusts SHA-256; repetitions inside of the list that is merged aren't specified.")

prop("C06", "A realm never uses more space than it may, and gives up the furthest records",
     "After every stored record, update, attached cuckoo (reply) or restart, the space that a node accounts for a realm equals what its records take and is not more than the space that the newest version of the realm allows, except that the realm's own record always stays. "
     "Records are given up only when there is not enough room, only as many as needed, only to store another record, and always those which are furthest from the node in the ID space; the reported distribution over the distances matches what is stored. "
     "A new record which fits or which can replace enough records strictly further away is stored (unless it alone takes more than a third of the space), and one for which there is no room changes nothing.",
     q(["histories"], "all histories of stores, updates, cuckoo registrations, realm updates and restarts on a node at any distance to the records"),
     "One unit test evicts a few Flos of equal size; the bound has to hold after every history of mixed sizes, updates and distances.",
     anchors(["flmodules/src/dht_storage/core.rs"],
             [("RealmStorage::upsert_flo", "flmodules/src/dht_storage/core.rs"), ("remove_furthest", "flmodules/src/dht_storage/core.rs"),
              ("store_cuckoo_id", "flmodules/src/dht_storage/core.rs")], ["RealmStorage::size", "RealmStorage::get_all_flo_cuckoos"],
             [("size", "accounted bytes", "RealmStorage"), ("distances", "Flo IDs by depth", "RealmStorage")]),
     PBT + "stateful model-based histories on the real store with invariants after every step",
     "Histories of up to 50 operations, 18 Flos at six distances, 0.1 to 60 kB of space; sizes are measured by storing a record alone in an empty store.")

prop("C07", "A node keeps the newest version of each record and all its replies",
     "When a record is offered, the node keeps the version with the higher number: older, equal or conflicting offers change nothing, a newer one always replaces the old one, and no other record changes. "
     "The cuckoos (replies) attached to a record are kept without duplicates over any number of updates of the record or of the cuckoo, for as long as the record is stored; a cuckoo is attached when it is offered and its parent is stored. "
     "Reading a record, listing all, the metadata for synchronising, the counts and what is asked from a neighbour (exactly the records which are missing, have a higher version or more cuckoos there) always agree with each other, also after a restart.",
     q(["histories"], "all histories of offers in any order, including repeated, older and conflicting versions, and restarts"),
     "The tests store each Flo in increasing versions once; arrival order, repetition and conflicting versions are not covered.",
     anchors(["flmodules/src/dht_storage/core.rs"],
             [("RealmStorage::upsert_flo / put", "flmodules/src/dht_storage/core.rs"), ("sync_available", "flmodules/src/dht_storage/core.rs")],
             ["RealmStorage::get_flo_cuckoo", "get_flo_metas", "get_cuckoo_ids", "sync_available"]),
     PBT + "stateful model-based histories on the real store with a step relation as oracle",
     "Histories of up to 50 operations over 18 records with versions 0 to 4; IDs are forced so that distances are covered.")

prop("C08", "Connected nodes end up with the same realms and the newest records",
     "Whatever was stored on which node, in which order, and whatever messages between the nodes were delayed, reordered, repeated or lost before: once the messages get through again and every node synchronised a few times, "
     "all nodes which are connected through nodes accepting a realm hold that realm and, of each of its records known to any of them, the highest version, with the same content (unless two different records with the same version were made) and the same number of cuckoos. "
     "On the way no node ever goes back to an older version or loses a record while there is enough space, reading a stored record returns what the node lists, synchronising always comes to an end, and once everybody has everything no records are exchanged any more.",
     q(["histories", "schedules", "fault_sequences"], "all histories of stores on any node and all delivery orders, losses and repetitions of the messages between 2 to 5 nodes on any graph"),
     "The simulation tests run one fixed network without losses and with one order of messages.",
     anchors(["flmodules/src/dht_storage/intern.rs", "flmodules/src/dht_storage/core.rs", "flmodules/src/dht_storage/broker.rs"],
             [("Intern::msg_dht_storage / msg_neighbour", "flmodules/src/dht_storage/intern.rs"), ("RealmStorage::sync_available", "flmodules/src/dht_storage/core.rs")],
             ["DHTStorage::get_flos", "DHTStorage::get_realm_ids"]),
     PBT + "stateful multi-node simulation of the real storage brokers with generated message schedules and losses, against a model of the newest versions",
     "2 to 5 nodes, up to 42 operations; the network is simulated (neighbours, greedy routes, direct answers), no Flo is evicted for space.")

prop("C09", "A restarted node has everything it had before",
     "After every change of a node's record storage (a stored or received record, a cuckoo registered locally or over the network, an eviction for space, a realm update, an answer to a request), a node started from what was persisted has exactly the same realms and the same records with the same version, content and cuckoos.",
     q(["crash_points", "histories"], "all histories of local and remote changes, with a restart at every point"),
     "The tests restart a storage once after storing two Flos; not after every kind of change.",
     anchors(["flmodules/src/dht_storage/intern.rs", "flmodules/src/dht_storage/broker.rs", "flmodules/src/dht_storage/core.rs"],
             [("Intern::store", "flmodules/src/dht_storage/intern.rs"), ("RealmStorage serialization", "flmodules/src/dht_storage/core.rs")],
             ["DHTStorage::get_flos", "DataStorage"]),
     PBT + "multi-node histories where a copy of the node is started from its persisted data after each step and compared",
     "As C08, with storages of 1.5 kB to 1 MB; crashes in the middle of one write are looked at in C22.")

prop("C10", "A node only takes in the realms it accepts",
     "A node which is configured to accept certain realms never holds or asks its neighbours for another realm, whatever it is sent or told to store; a realm is accepted additionally from the moment on that it is announced as system realm, and a node without configured realms accepts all. "
     "A node never holds a record of a realm that it doesn't hold, nor a realm without the realm's own record.",
     q(["histories", "schedules"], "all sets of accepted realms per node and all histories of stores, announcements, deliveries and restarts"),
     "The tests check one storage which accepts exactly the realm that it is sent.",
     anchors(["flmodules/src/dht_storage/intern.rs", "flmodules/src/dht_storage/core.rs"],
             [("Intern::create_realm / upsert_flo", "flmodules/src/dht_storage/intern.rs"), ("DHTConfig::accepts_realm", "flmodules/src/dht_storage/core.rs")],
             ["DHTStorage::get_realm_ids", "DHTStorage::get_flos"]),
     PBT + "multi-node histories with nodes accepting different realms, with an invariant on each node's state and requests",
     "2 to 5 nodes, two realms, up to 42 operations.")

prop("C12", "The routing table only uses nodes that answer, and finds all of them",
     "After any history of announced, active, removed, disconnected, silent and answering nodes, a routing table never holds its own node, a node twice, or a node that was removed or disconnected; it uses for routing only nodes which it heard of within the timeout, and no more than the configured number for each distance (except for the closest ones, which it all keeps). "
     "A silent node is pinged and then dropped, a node which answers is never dropped, and known nodes which answer are used up to the configured number per distance. "
     "The route to an ID returns exactly the used nodes which are closer to that ID than this node, or if there are none, the next ones which can't make a message go in circles.",
     q(["histories", "configurations"], "all histories of announcements, pings, answers, failures and ticks, for all sizes of the table, timeouts and positions of the IDs"),
     "The unit tests look at single steps with a handful of IDs which differ in the first bits.",
     anchors(["flmodules/src/dht_router/kademlia.rs"],
             [("Kademlia::add_nodes / rebalance", "flmodules/src/dht_router/kademlia.rs"), ("KBucket::tick", "flmodules/src/dht_router/kademlia.rs")],
             ["Kademlia::route_closest", "Kademlia::route_direct", "Kademlia::tick", "active_nodes"]),
     PBT + "stateful model-based histories on the real table with a simulation of which nodes answer",
     "Up to 20 IDs which share 0 to 255 bits with the node, up to 60 operations. The random choice of which of the known nodes is pinged first isn't specified.")

prop("C13", "Messages get routed to the right node and never go in circles",
     "Whatever the nodes know of each other and whoever is up, a message routed to an ID never comes twice to a node, gets closer to the ID with each hop, keeps its content and origin, is announced as being routed once on every node on its way, and ends with exactly one event: at the destination, or where no closer node is known. "
     "If all nodes have been told of each other, in whichever way (a list of nodes, a connection, a list of connections), a direct message arrives at its destination and a message to the closest node ends at a closest one; messages to a neighbour or to all neighbours arrive once and at nobody else. "
     "Nodes which are down or which disconnect are no longer used once they didn't answer during the timeout.",
     q(["histories", "configurations", "fault_sequences"], "all sets of node IDs, histories of announcements and of nodes going down and up, and all destinations including IDs of no node"),
     "The simulation tests route between a few random nodes which are all up, and don't look at the way that a message takes.",
     anchors(["flmodules/src/dht_router/intern.rs", "flmodules/src/dht_router/kademlia.rs"],
             [("Intern::message_closest / message_direct", "flmodules/src/dht_router/intern.rs"), ("Kademlia::route_closest", "flmodules/src/dht_router/kademlia.rs")],
             ["DHTRouterOut::MessageClosest", "DHTRouterOut::MessageDest", "DHTRouterOut::MessageRouting"]),
     PBT + "stateful multi-node simulation of the real routers with an oracle on the path of every message",
     "2 to 12 nodes, tables of 1 to 4 nodes per distance; the network below delivers to nodes which are up.")

prop("C14", "A node keeps the newest events, in any order of arrival",
     "Whatever events a node is given, in any order and with any repetitions, it keeps the 50 newest texts, and the newest information of each node for the 100 newest nodes; the result doesn't depend on the order or the grouping of the arrivals, or on repetitions. "
     "Adding events tells exactly which ones are new and kept, and all lookups (by category, by ID, which ones are unknown) agree with what is kept. "
     "A node started from what was saved has the same events.",
     q(["inputs", "histories"], "all sequences of events with any times, sources, texts and groupings, also with equal times"),
     "The unit tests add a few events in one order.",
     anchors(["flmodules/src/gossip_events/core.rs", "flmodules/src/gossip_events/intern.rs"],
             [("Events::insert / limit", "flmodules/src/gossip_events/core.rs"), ("EventsStorage::add_events", "flmodules/src/gossip_events/core.rs")],
             ["EventsStorage::events", "event_ids", "get_events_by_ids", "filter_known_events"]),
     PBT + "stateful histories against a reference model, permuted histories compared with each other, and saving and loading",
     "Events of two categories with up to 160 sources and times in small and large ranges; equal times are ordered by the ID of the event.")

prop("C15", "All connected nodes get the same events",
     "Whatever events are published on which node, and whatever messages between the nodes were delayed, reordered, repeated or lost and which nodes were restarted before: once messages get through again and the nodes synchronise a few times, all nodes which are connected directly or through others have the same events, namely the newest ones of all that were published. "
     "Each node reports a new event once, and never reports or takes in one that nobody published; a restarted node still has its events. "
     "Once everybody has everything, no events are sent any more.",
     q(["histories", "schedules", "fault_sequences"], "all histories of published events, connections, restarts, and all delivery orders, losses and repetitions of the messages between up to 5 nodes"),
     "The tests exchange a few events between two or three nodes without losses.",
     anchors(["flmodules/src/gossip_events/intern.rs", "flmodules/src/gossip_events/broker.rs", "flmodules/src/gossip_events/core.rs"],
             [("Intern::node_msg / tick", "flmodules/src/gossip_events/intern.rs"), ("EventsStorage::add_events", "flmodules/src/gossip_events/core.rs")],
             ["Gossip.storage", "GossipOut::NewEvent"]),
     PBT + "stateful multi-node simulation of the real gossip brokers with generated message schedules, losses and restarts, against a model of the newest events",
     "2 to 5 nodes on any graph, up to 60 operations.")

prop("C21", "A storage returns what was stored last",
     "For all keys and values, a storage in memory or in files returns for each key exactly the text that was stored last through any handle to it, and an empty text if nothing was stored or it was removed; storing or removing a key doesn't change any other key, and removing a key which isn't there does nothing. "
     "Storages with different names or directories and separate storages in memory don't influence each other, and a file storage that is opened again has all that was stored.",
     q(["histories", "inputs"], "all keys without slashes, all texts and all histories of storing, reading, removing, cloning and opening again on several storages"),
     "The tests store one value and read it back.",
     anchors(["flarch/src/data_storage.rs", "flarch/src/data_storage/libc.rs"],
             [("DataStorageTemp", "flarch/src/data_storage.rs"), ("DataStorageFile", "flarch/src/data_storage/libc.rs")],
             ["DataStorage::get", "DataStorage::set", "DataStorage::remove", "DataStorage::clone_box"]),
     PBT + "stateful model-based histories on six storages against a map",
     "Keys which fit in a file name; the storage of the browser and of node.js isn't built here.")

prop("C22", "A crash or a full disk doesn't destroy what was stored",
     "If a node is killed or its disk gets full at any point while it stores or removes a value or starts, then afterwards every key has either the value from before or the new one, completely, and all other keys are unchanged; an operation which said that it was successful stays done. "
     "A node which starts again after this keeps its identity if it had one, and can store new values.",
     q(["crash_points", "fault_sequences"], "all histories of stored and removed values and starts of nodes, each interrupted at every call which changes a file and in the middle of writes"),
     "No test stops a storage in the middle of an operation.",
     anchors(["flarch/src/data_storage/libc.rs", "flnode/src/node.rs"],
             [("DataStorageFile::set", "flarch/src/data_storage/libc.rs"), ("Node::get_config", "flnode/src/node.rs")],
             ["DataStorage::get", "Node::get_config"]),
     PBT + "generated histories with fault injection at every file operation (in a child process), against a model of what may be stored",
     "The faults are a killed process and ENOSPC; what a power failure does to the cache of the operating system isn't simulated.")

prop("C19", "Texts get through the connection between two nodes as they are",
     "Every text of any content and length that is given to the connection with another node comes out at the other end exactly once, unchanged and in order, if the WebRTC channel that it was given to stays open; texts given while no channel is open wait, and are sent as soon as one opens. This also holds for real WebRTC connections, for texts given at any moment of the setup, and such a connection comes up if the setup messages are passed on and there is a network. "
     "Long texts are split in parts of at most 16384 bytes, and are put together whatever order the parts come in, also when parts of several texts are mixed. "
     "Openings, closings, states and setup messages are passed on once with the right direction, and packets which cannot be read or have impossible numbers change nothing, and hostile setup messages crash nothing.",
     q(["inputs", "histories", "fault_sequences"], "all texts, and all histories of texts, openings, closings, setup messages and malformed packets on the two channels of a connection"),
     "The test splits and joins ASCII texts of two lengths.",
     anchors(["flarch/src/web_rtc/node_connection.rs", "flarch/src/web_rtc/libc/web_rtc_setup.rs", "flarch/src/web_rtc/mod.rs"],
             [("Packet::split_msg / PacketCollector", "flarch/src/web_rtc/node_connection.rs"), ("NodeConnection::send_queue", "flarch/src/web_rtc/node_connection.rs"), ("WebRTCConnectionSetupLibc", "flarch/src/web_rtc/libc/web_rtc_setup.rs")],
             ["NCOutput::Text", "NCOutput::Connected", "NCOutput::Disconnected", "WebRTCInput"]),
     PBT + "stateful histories on two real connections with simulated channels between them, against a model of the texts on their way, permuted parts, and real WebRTC connections over a local interface",
     "Texts up to 120000 characters; the simulated WebRTC channels are reliable and ordered.")

prop("C18", "The signalling server lists only who proved their ID, and relays rightly",
     "Every connection to the signalling server gets a fresh challenge, and a node is listed and reachable only after it signed the challenge of its connection with the key behind its ID: wrong, replayed or malformed announcements and unreadable messages do nothing. "
     "A node which asks gets a list of the connected nodes with their newest informations, each one once, up to the maximum length, and the other nodes are told about a new one; a second connection of the same node replaces the first, which is told. "
     "Setup messages between two nodes are passed on unchanged to the other one only, and only if one of the two sent them; a node disappears when it disconnects, or if it sends nothing for the configured number of minutes, but not before.",
     q(["histories", "inputs"], "all histories of connections, right and forged announcements, lists, setup messages, minutes, disconnections and garbage of up to 40 connections"),
     "The tests connect two well-behaved nodes.",
     anchors(["flmodules/src/network/signal.rs", "flmodules/src/nodeconfig.rs"],
             [("SignalServer::ws_announce", "flmodules/src/network/signal.rs"), ("SignalServer::ws_peer_setup", "flmodules/src/network/signal.rs"), ("NodeInfo::verify", "flmodules/src/nodeconfig.rs")],
             ["SignalOut::WSServer", "SignalOut::NewNode", "WSSignalMessageToNode"]),
     PBT + "stateful histories on the real server against a model of the announced nodes",
     "The WebSocket below is replaced by its messages; signatures cannot be forged by assumption.")

prop("C16", "A node knows its connections, and always looks for enough of them",
     "Whatever connections, disconnections, failures, lists of nodes and messages come in any order: the node reports exactly the nodes which are connected, each one once and with its newest information, passes messages on once and unchanged, and sends them only to connected nodes. "
     "It never tries to connect to itself, to a connected node, or to one it is already trying for, and doesn't ask for more connections than the 2*ln(n) which it needs with n known nodes. "
     "As long as it knows other nodes it has or tries at least half of these connections, and adds one more every 10 seconds until it has all of them; nodes which never answer don't keep it from connecting to others.",
     q(["histories", "schedules"], "all histories of lists, connections, disconnections, failed and unanswered attempts, messages and seconds with up to 15 nodes, and all operations on the list of nodes with their ages"),
     "The tests call single functions with a fixed list of nodes.",
     anchors(["flmodules/src/random_connections/intern.rs", "flmodules/src/random_connections/core.rs", "flmodules/src/random_connections/nodes.rs"],
             [("RandomStats::fill_up / choose_new / nodes_needed", "flmodules/src/random_connections/core.rs"), ("Intern::msg_net / msg_tick", "flmodules/src/random_connections/intern.rs")],
             ["RandomOut::NodeIDsConnected", "RandomOut::NodeInfosConnected", "NetworkIn::Connect", "RandomBroker.stats"]),
     PBT + "stateful histories of network events on the real broker against a model of its connections, with a check that it recovers in the end",
     "The network below is simulated by its events; an attempt without an answer counts as failed after 10 to 30 seconds.")

prop("C17", "Connections between nodes are reported as they are, and messages get through",
     "However the setup messages over the signalling server, the opening of channels, failures and disconnections of some nodes interleave: connections and disconnections are reported alternately, and once everything is delivered a node reports as connected exactly the nodes it has an open channel with, also in its list of connections and to the modules above. "
     "A message arrives at most once, unchanged, and only at the node it is for, and it arrives if no connection or signalling breaks; half a minute after all disturbances every node can again reach every other one, and the list of nodes is asked for every minute. "
     "Hostile setup messages, garbage from the signalling server and strange messages from other nodes disturb at most the connection to their sender, and never crash a node.",
     q(["schedules", "fault_sequences", "histories"], "all interleavings of connections, messages, setup messages, openings, failures, disconnections, lost signalling, seconds, hostile setups and garbage between 2 to 4 nodes"),
     "The tests connect two nodes in one order, without any failure.",
     anchors(["flmodules/src/network/intern.rs", "flmodules/src/network/broker.rs", "flarch/src/web_rtc/mod.rs", "flarch/src/web_rtc/node_connection.rs", "flmodules/src/router/broker.rs"],
             [("Intern::msg_ws / msg_rtc / connect / disconnect", "flmodules/src/network/intern.rs"), ("NodeConnection::msg_conn", "flarch/src/web_rtc/node_connection.rs"), ("RouterNetwork", "flmodules/src/router/broker.rs")],
             ["NetworkOut", "Network.connections", "RouterOut"]),
     PBT + "schedules and faults over several real network stacks and the real signalling server on simulated channels, against the true state of the channels",
     "The WebRTC channels and WebSockets are simulated, their messages delivered in generated orders.")

prop("C23", "A whole node keeps its identity, and shows what is there",
     "A node keeps the same ID and keys in its storage forever, whatever is changed in its configuration and however often it is started, and runs exactly the modules which its configuration asks for. "
     "Whatever messages, new realms, crashes, restarts, new names, partitions and lists of nodes come: once all nodes are up and can talk again, every node shows the application all messages, all realms and the newest information of all nodes, all of them as online, and exactly its connections. "
     "A restarted node shows at once all messages, nodes and realms it had, and no connections; and the statistics show at every moment exactly the connected nodes and the last list of nodes. The timer gives one tick each second, and with every sixtieth also one of the minute; an interval ticks at its times, also if it starts in the past.",
     q(["histories", "fault_sequences", "crash_points", "configurations"], "all histories of messages, realms, crashes, restarts and partitions of up to five nodes, and all sets of modules"),
     "The tests start single nodes, or some well-behaved ones which never crash.",
     anchors(["flnode/src/node.rs", "flnode/src/stat.rs", "flmodules/src/router/broker.rs", "flmodules/src/flo/storage.rs", "flmodules/src/timer.rs", "flarch/src/tasks/libc.rs"],
             [("Node::start", "flnode/src/node.rs"), ("Node::get_config", "flnode/src/node.rs"), ("NetworkStats::messages", "flnode/src/stat.rs")],
             ["Node::nodes_connected", "Node::nodes_online", "Node::nodes_info_all", "Gossip::chat_events", "DHTStorage::get_realm_ids", "NetStats"]),
     PBT + "stateful histories of whole nodes in a simulated network with injected crashes and partitions, against a model of what was sent and who is connected",
     "The network below is simulated and keeps the order of messages between two nodes; crashes happen while a node is idle (C22 and C09 have the others); up to 25 messages and 3 realms.")

prop("C24", "A page asked from another node is what its server answered",
     "A GET over the web proxy returns the status, all headers and the complete body exactly as the server gave them to the node which asked it, however many pages are asked at the same time, and however the body is cut in pieces and the caller reads it: pages are never mixed. "
     "Only connected nodes which accept requests are asked, one after the other, and the server is asked once. "
     "If there is no such node, the server fails, the address is wrong or the node disconnects, the caller gets an error or the beginning of the body, but never waits forever, and the other requests are not disturbed.",
     q(["inputs", "schedules", "fault_sequences"], "all pages and sets of pages asked at the same time, and all failures of servers, nodes and callers at any moment"),
     "The only test asks one page from the internet, and checks nothing of it.",
     anchors(["flmodules/src/web_proxy/core.rs", "flmodules/src/web_proxy/intern.rs", "flmodules/src/web_proxy/broker.rs", "flmodules/src/web_proxy/response.rs"],
             [("WebProxyCore::handle_response", "flmodules/src/web_proxy/core.rs"), ("Intern::start_request", "flmodules/src/web_proxy/intern.rs"), ("WebProxy::get", "flmodules/src/web_proxy/broker.rs")],
             ["WebProxy::get", "Response::chunk", "Response::headers", "Response::proxy"]),
     PBT + "generated pages and failures of a real HTTP server on the loopback interface behind several real nodes on several threads, against what the server sent",
     "HTTP/1.1 without TLS and compression; the connections between the nodes are simulated, and keep the order of their messages.")

prop("C25", "WebSocket connections bring texts to the right one, and survive failures",
     "Over real sockets, whatever clients come, go, break off, stall in the handshake or speak something else: the server reports every connection once with its own index before anything else of it, passes texts on unchanged, in order, once, and only to and from the right connection, and reports its end once. "
     "A connection closed by either side is really closed and nothing happens to the others, unknown indexes do nothing, and a stopped server has no connection anymore and accepts none. "
     "The client connects again by itself if the server closes or drops the connection, or with the next text if the server was away; once disconnected it stays so until it is used again, has never two connections, and no failure crashes it.",
     q(["histories", "fault_sequences", "inputs"], "all histories of connections, texts up to 120000 characters, closings, broken, stalled and unreadable connections, absences of the server and user commands"),
     "The test connects two clients and sends some texts.",
     anchors(["flarch/src/web_rtc/libc/web_socket_server.rs", "flarch/src/web_rtc/libc/web_socket_client.rs", "flarch/src/web_rtc/websocket.rs"],
             [("WebSocketServer", "flarch/src/web_rtc/libc/web_socket_server.rs"), ("WebSocketClient", "flarch/src/web_rtc/libc/web_socket_client.rs")],
             ["WSServerOut", "WSClientOut", "the texts at the other end of the socket"]),
     PBT + "stateful histories with injected faults on the real server and client over loopback sockets, against a model of the connections",
     "Only the libc implementation; clients which never read what they are sent are not included.")

prop("C11", "Pages change only with the right signatures, and are found by their path",
     "Creating or changing a page, tag or service of a realm succeeds exactly if the signers satisfy the rule of the page in force, and else changes nothing; a read directly after a change sees it, and every view which is opened or refreshed later shows the same pages as the storage. "
     "A new child is listed once by its parent, and by no former parent, whenever the signers may also sign for the parent. "
     "Looking up a path finds exactly the page to which the names lead from the root, through children and attached cuckoo pages, and asking for the full path of any page ends, even if pages are their own ancestors. "
     "The rule of a page is resolved to exactly the keys and badges stored in the realm; what is missing is reported as not available, and badges which refer to themselves come to an end.",
     q(["histories", "inputs"], "all histories of creations and changes by any signers through several views, all trees and cyclic links of pages, and all graphs of rules and badges"),
     "The tests create two or three pages with a single key and look up a fixed path.",
     anchors(["flmodules/src/dht_storage/realm_view.rs", "flmodules/src/flo/blob.rs", "flmodules/src/dht_storage/broker.rs", "flmodules/src/flo/flo.rs"],
             [("RealmView", "flmodules/src/dht_storage/realm_view.rs"), ("BlobAccess / BlobPath", "flmodules/src/flo/blob.rs"), ("DHTStorage::convert", "flmodules/src/dht_storage/broker.rs")],
             ["RealmView", "DHTStorage.get_flo", "FloBlobPage"]),
     PBT + "stateful histories of page operations on the real storage and views against a model of the tree, and generated rule graphs against a reference resolution",
     "Views are refreshed before changing what another view changed; rules with keys which the realm doesn't have are a known finding.")

prop("C20", "Brokers deliver every message once, in order, to all it is for",
     "Every message given to a broker reaches every handler, tap and linked broker (through the translation of the link) that it is for exactly once for each path to it, unchanged, and in the order it was given; it goes no further when it comes back to a broker it already went through. "
     "Nothing arrives anymore after the removal of a handler, tap or link, and removed or closed ones disturb nobody else. "
     "Settling a broker returns only once everything emitted before is delivered along all the links, and never blocks, also if several brokers settle at the same time. "
     "A broker ends with its last handle, but only after all its messages are delivered, also if it is used by several threads.",
     q(["programs", "schedules"], "all graphs of brokers with translations, handlers and taps, all orders of emitting, settling, adding, removing and dropping, and several emitting threads"),
     "The tests link two or three brokers in a fixed way and send some messages.",
     anchors(["flarch/src/broker.rs"],
             [("Broker / Intern", "flarch/src/broker.rs"), ("Broker::settle", "flarch/src/broker.rs"), ("Broker::add_translator_link", "flarch/src/broker.rs")],
             ["taps", "SubsystemHandler::messages", "BrokerError"]),
     PBT + "generated programs on graphs of real brokers against a model of the paths of each message, and generated loads on several threads",
     "What is delivered at the broker where a message closes a circle is not specified.")

prop("C26", "What is stored on any node can be read from all nodes",
     "A new record or version stored on one node gets, over the routing, to the node closest to its ID and to all nodes on the way there, unless they don't hold the realm; a reply is listed by the closest node of the record it replies to. "
     "Whoever reads a record which it doesn't hold gets it from each node on the way to its ID which has it, so at least what the closest one has, unchanged, and keeps it if it has the realm; the same holds for the lists of replies. "
     "A node which has the record itself returns it at once. "
     "Nobody gives up a version, a record or a reply by this, and storing and reading come to an end, in whatever order the messages arrive and however many requests are made at the same time.",
     q(["histories", "schedules", "configurations"], "all positions of the nodes around the records, all histories of storing, reading, listing, synchronising and restarting on any nodes, one after the other or at the same time, and all orders of the messages"),
     "The tests store and read over two to five nodes in a fixed order, mostly after synchronising.",
     anchors(["flmodules/src/dht_storage/intern.rs", "flmodules/src/dht_storage/broker.rs", "flmodules/src/dht_router/intern.rs"],
             [("Messages::store_flo / msg_routing / msg_dest", "flmodules/src/dht_storage/intern.rs"), ("Intern::message_closest / message_direct", "flmodules/src/dht_router/intern.rs")],
             ["DHTStorageOut::FloValue", "DHTStorageOut::CuckooIDs", "DHTStorage.get_flo", "DHTStorageIn::GetFlos"]),
     PBT + "stateful multi-node histories on real storages above real routers with generated positions and message orders, with an oracle on the way of each request and on the closest node",
     "2 to 8 nodes which are up and know each other; enough space; if several nodes are equally close, only the nodes on the way are looked at.")
