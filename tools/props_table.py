BR="flarch/src/broker.rs"
prop("B01","Every subscriber of a broker gets each message exactly once and in order",
 "Every message emitted into a broker reaches every subscriber (tap, synchronous tap or handler) of its direction that is registered when the message is queued exactly once, in the order in which each sender emitted them, and all subscribers see the same order. Whatever a handler returns is delivered once to the output subscribers. Subscribers that come, are removed, or whose receiver is dropped never lose, duplicate or reorder messages for the others; after removal nothing more is delivered, and messages addressed to handlers only skip the taps.",
 ["schedules","histories"],"All interleavings of concurrent senders, slow handlers, and subscriptions that come and go, on one to eight worker threads.",
 "The unit tests send a handful of messages from one task to one or two taps.",
 [BR],[("single queue processed by one task per broker","Intern::get_msg, Intern::process_once"),("subscriber table","Intern::subsystem_action")],
 ["Broker::emit_msg_in/out","get_tap_in/out(_sync)","SubsystemHandler::messages"],
 technique="offline exactly-once/FIFO/total-order checker over recorded per-subscriber histories under multi-threaded stress",
 note="Holds on the recorded histories: a few hundred randomised cases per run, real tokio schedules with injected delays; not every interleaving.")
prop("B02","Linked brokers forward every message once along every link and cut loops",
 "For any topology of brokers connected by translators of the four kinds, bidirectional links included, a message that enters one broker appears exactly once at each broker and direction for each loop-free path of translators that accept it, in the order sent along the path, and is never translated again by a broker it already passed; so no topology can circulate a message forever, and nothing appears that no translator produced.",
 ["configurations","schedules","inputs"],"All topologies up to five brokers and seven links (cycles, parallel links, filters), and all runtimes from one to eight threads.",
 "The tests link two or three brokers in fixed shapes; loops are tested with one message.",
 [BR],[("trail of visited brokers in Destination::Forwarded","process_translate_out_messages / process_translate_in_messages"),("Translator::emit_ti_to","flarch/src/broker.rs")],
 ["taps on both directions of every broker"],
 technique="model-based trace oracle: observed deliveries against a path-enumerating reference model over random topologies",
 note="Random topologies up to 5 brokers; deliveries to a broker which already forwarded the message are only bounded from above.")
prop("B03","Settling waits for everything already sent, downstream, and never deadlocks",
 "When a settle on a broker returns, every message sent to it before, and everything that follows from those messages along its translators and handlers to brokers downstream, has been delivered to all subscribers. Settling always ends, whatever the topology (rings and bidirectional links included) and however many tasks settle different brokers at the same time.",
 ["schedules","configurations"],"All acyclic topologies of up to five brokers with slow handlers; rings of two to five brokers settled concurrently.",
 "Most tests use settle to wait for their result, from one task; a missing wait shows up only as a rare flake, and concurrent settling is never tried.",
 [BR],[("Settle message queued behind the messages, and passed on to the translators' brokers","Intern::get_msg, Translator::settle")],
 ["state of all taps at the moment settle returns"],
 technique="online quiescence monitor: at each settle return, taps are read without waiting and compared with the model; concurrent settle stress with deadlock watchdog",
 note="The watchdog is 60 s for work that takes milliseconds.")
prop("B04","A broker lives exactly as long as one of its handles",
 "As long as at least one handle of a broker exists (clones in any task, or the link of another living broker), messages sent are accepted and handled. Once the last handle is dropped, all messages sent before are still handled, then the handlers are freed and the taps end.",
 ["schedules","histories"],"All orders of cloning, dropping and sending by concurrent tasks.",
 "The tests drop one or two handles in sequence.",
 [BR],[("Cloned/Dropped accounting","Broker::clone, Broker::drop, Intern::get_msg")],
 ["destructor of the handler","end of the tap channel"],
 technique="lifetime monitor: destructor and channel-close events checked against the recorded handle history",
 note="Real schedules with injected delays.")

prop("I01","IDs and their hashes are total, canonical and free of ambiguity",
 "Parsing an ID accepts exactly the even-length strings of at most 64 hexadecimal digits, filling from the left, and returns an error for everything else without ever panicking; printing in full and parsing, and all serializations, return the same ID; IDs are ordered like their bytes. hash_domain_parts gives different inputs (domain and list of parts, however their bytes are cut) different hashes, and hashes stay the same from one version of the code to the next (stored and signed values depend on them); hashes of equal maps are equal whatever their insertion order. The list operations of NodeIDs are those of ordered sets.",
 ["inputs"],"All strings; all pairs of (domain, parts), in particular those whose concatenation is the same, around every length where the prefix changes form.",
 "The tests check one random list and one serialization; parsing and the hash framing have no test.",
 ["flarch/src/nodeids.rs","flmacro/src/lib.rs"],[("length-prefixed hashing","hash_domain_parts, to_varint"),("parsing","U256::from_str")],["return values"],
 technique="differential monitor against an independent oracle, exhaustive small tuples plus seeded boundary tuples for the hash framing",
 note="Collision search covers all tuples up to 4 (thorough 5) bytes over the alphabet of the length prefixes and random cuts at the boundaries; not all inputs.")
prop("S01","A storage returns what was last set, per storage and key",
 "For the temporary and the file storage: get returns the value of the last set of that key on any handle of the same storage (clones and, for files, reopened ones included), byte for byte, or the empty string if there is none or it was removed. Keys and storages of different names never influence each other (names without the separator '_'). Handles can be used by several threads at once: no operation fails because of it and no reader sees part of a value.",
 ["inputs","histories","schedules"],"All histories of set, get, remove, clone, reopen over any keys and values; all interleavings of threads using clones.",
 "One test per storage sets one value and reads it.",
 ["flarch/src/data_storage.rs","flarch/src/data_storage/libc.rs"],[("file per key","DataStorageFile::name, set, get"),("shared map","DataStorageTemp")],["get, set, remove results"],
 technique="online model checker: every get compared with a map model over random histories; multi-threaded stress with self-describing values",
 note="Random histories and real thread schedules.")
prop("S02","Storing a value is atomic under crashes and disk errors",
 "If the process dies at any moment while a value is being stored in a file, or the disk fails or is full, the key afterwards holds either its previous value or the new one, complete; if set returned Ok, the new one. Other keys are unaffected and the storage stays usable. This keeps a node's identity, its realms and its events over crashes.",
 ["crash points","faults"],"Every file-system call made by set, with death before, after and half-way, I/O error, full disk and short writes; old and new values of any size.",
 "No test injects a crash or an error.",
 ["flarch/src/data_storage/libc.rs"],[("write to a temporary file, then rename","DataStorageFile::set")],["value seen by a reopened storage"],
 technique="fault injection at every file-system call (LD_PRELOAD interposer, real child process) with an old-or-new oracle",
 level="fault_enumeration",
 note="Enumerates every call of the executions for the sizes used; process crashes and failing calls, not power loss.")
prop("T01","Timers tick every second and minute, and intervals start at the right time",
 "A started timer emits one Second per second and exactly one Minute after every 60th Second, for ever; every kind of subscription gets exactly the ticks of its kind from its subscription on. An interval first fires at its start time (immediately if that is now or in the past, even by a millisecond) and then once per period, with the nominal times as values; a reader or a machine that is late gets every tick it missed.",
 ["inputs","schedules"],"All start offsets and periods, all durations and subscription times.",
 "The timer itself is not tested; intervals are used only by it. A start time which passes during creation needs luck to hit.",
 ["flmodules/src/timer.rs","flarch/src/tasks/libc.rs"],[("counter of seconds","Timer::start"),("first tick","Interval::new")],["taps of the timer broker","values of the stream"],
 technique="trace checker on virtual time over minutes of ticks; stress of interval creation over millisecond boundaries",
 note="Virtual time; the machine's real scheduling delays are not part of it.")
prop("F01","Stored configurations of all versions decode to the same node identity",
 "A node configuration or node information written by this version or by a supported older version decodes to the same identity (key pair, public key, id), name, client and capabilities; encoding is stable. Anything else, in particular what other nodes send, gives an error or a usable value, never a crash. Signatures made with a decoded configuration verify with its public information; no other message, key or altered signature does.",
 ["inputs"],"All names, clients and capability sets, in all versions; all malformed texts.",
 "The tests convert one configuration; malformed and unsupported texts are not tried.",
 ["flmodules/src/nodeconfig.rs","flmacro/src/lib.rs"],[("version enums generated by VersionedSerde","flmacro::versioned_serde"),("migrations","From<NodeInfoV2>, From<NodeConfigV1>")],["decode results"],
 technique="round-trip and migration oracle over generated texts of every version, plus mutation fuzzing with a panic monitor",
 note="Generated and mutated texts; a few thousand per run.")

AC="flcrypto/src/access.rs"
prop("C01","A condition signature verifies exactly if enough valid signatures are there",
 "For every condition (verifiers, n-of-t thresholds, badges, pass, fail, unavailable parts, nested in any way), a condition signature verifies for a message or digest if and only if the condition is satisfied by the set of members whose signature over exactly that message and condition is valid. Missing, superfluous, foreign, altered, swapped or malformed signatures count as missing and never change anything else; signatures for another message or another condition never count. Members can sign, strangers are refused. Nothing panics.",
 ["inputs"],"All condition trees, all subsets of signers, all mixtures of valid and invalid signatures.",
 "The tests sign with two or three keys on three fixed conditions; invalid signatures inside thresholds are never tried.",
 [AC],[("recursive evaluation","ConditionSignature::verify_cond"),("digest bound to the condition","ConditionSignature::digest, Condition::hash")],["verify_msg / verify_digest"],
 technique="differential monitor: verification result against an independent evaluator over random condition trees and hostile signature maps",
 note="Random trees up to depth 3 over five keys.")
prop("C02","Signatures verify only for their key and message, and bad ones are errors",
 "A signature verifies with the key and message it was made for, and with nothing else: any altered bit, other length, other key, or scalar that is not reduced is refused, also for degenerate keys. Malformed signatures and keys of any length give an error and never a crash. Identifiers of keys are unique and the same for signer and verifier; keys and signatures survive serialization unchanged.",
 ["inputs"],"All keys, messages, and byte strings given as signature or serialized key.",
 "The tests swap two signatures; malformed input is not tried.",
 ["flcrypto/src/signer.rs","flcrypto/src/signer_ed25519.rs"],[("strict verification","VerifierEd25519::verify"),("key id","get_id")],["verify results"],
 technique="tamper monitor: bit flips, length changes, malleated scalars and malformed serializations with a panic monitor",
 note="Sampled alterations; the strength of ed25519 itself is assumed.")
prop("C03","Conditions and their links correspond, and signing rights are evaluated right",
 "The link of a condition keeps its whole structure; a condition matches a link only if it is the condition the link describes (same kind, same threshold, same members in the same places), and conditions without badges match their own link. Different conditions have different hashes. can_sign is true exactly if the signatures of the given signers satisfy the condition. Resolving a link gives back the condition with missing parts marked unavailable, and always ends, also when badges refer to each other. Version specifications accept exactly the versions they name.",
 ["inputs"],"All pairs of conditions and links, all signer sets, all badge graphs.",
 "No test compares conditions with links or asks can_sign.",
 [AC],[("structural comparison","Condition::equal_link, to_link"),("resolution","ConditionLink::to_condition"),("rights","Condition::can_sign")],["return values"],
 technique="differential monitor against an independent tree model over random pairs and badge graphs",
 note="Random trees up to depth 3; badge graphs up to four badges.")
FL="flmodules/src/flo/flo.rs"
prop("C04","Only what its owners signed verifies: a Flo's history cannot be forged",
 "A Flo verifies if its whole history was signed by enough owners at each step. Nobody else can produce a Flo with the same ID that verifies and whose type, configuration, data, version or conditions differ from what the owners signed: not by altering any part of it, leaving out, repeating or exchanging steps, combining parts of different versions or Flos, signing as a stranger, as too few owners, or as a former owner after the condition changed.",
 ["inputs","histories"],"All histories of data and condition updates, all alterations of every field, all signers.",
 "One test does two updates with honest signers.",
 [FL,AC],[("chain of signed conditions","Flo::verify"),("digests","digest_cond_genesis, digest_cond_update, digest_data")],["Flo::verify"],
 technique="forgery monitor: every leaf of serialized Flos altered, parts spliced, unauthorised updates attempted; oracle is the set of contents the owners signed",
 note="Random histories up to six updates. The realm of a Flo is not signed in this design and not part of the claim. Known finding: conditions with badges never verify.")
prop("C05","A Flo keeps its identity, versions count up, and no format changes it",
 "The ID of a Flo never changes over its updates and differs between Flos; a data update raises the version by one, a condition update keeps it; updates with too few signatures or prepared for another version are refused and leave the Flo as it was. A Flo and its wrapper read back from any serialization are identical and verify, the wrapped object is always the one in the data, and a Flo is never taken for another type. The ID of a realm's Flo is the ID of the realm, and a forced ID depends on nothing else.",
 ["inputs","histories"],"All sequences of updates on Flos of any type and condition.",
 "Two updates are tested; formats once for a realm.",
 [FL,"flmodules/src/flo/realm.rs"],[("id from the genesis digest","Flo::flo_id"),("version","Flo::update_data"),("type tag","TryFrom<Flo> for FloWrapper")],["getters, serializations"],
 technique="round-trip and invariant monitor over random update histories",
 note="Random histories; a few hundred per run.")

DC="flmodules/src/dht_storage/core.rs"; DI="flmodules/src/dht_storage/intern.rs"; DB="flmodules/src/dht_storage/broker.rs"
prop("D01","A node's storage never outgrows a realm's space and drops the farthest first",
 "After every operation, what a node stores of a realm takes at most the space the realm allows (only the realm's own Flo may be bigger on its own), the reported size is exactly what the stored Flos and cuckoo IDs take, and all listings agree with each other. The realm's own Flo is never dropped. If there's not enough space, Flos farthest from the node's ID (shortest common prefix) are dropped first and not more than needed, a Flo which fits is stored, and one which is closer replaces farther ones. Every operation ends.",
 ["inputs","histories"],"All realms and spaces, node IDs, and sequences of new Flos, updates, repetitions and cuckoo links of any size.",
 "One test stores a few Flos of fixed sizes.",
 [DC],[("size accounting and index by depth","RealmStorage::put, remove_entry"),("eviction","RealmStorage::remove_furthest"),("admission","RealmStorage::upsert_flo")],["RealmStorage getters, size"],
 technique="state monitor after every operation of random histories: every stored unit measured against a fresh storage, eviction order and need checked against before/after snapshots, watchdog",
 note="A few hundred histories of up to hundreds of operations.")
prop("D02","Stored Flos never go back to an older version and keep their cuckoos",
 "Whatever the order, repetition and route (own user, message through the network, neighbour synchronization) in which versions of Flos and cuckoo links arrive, a node keeps for each Flo the newest version it got, never an older one, and the union of all cuckoos it learned of; reads, listings and statistics show exactly this. From a neighbour's listing it asks exactly for what is newer or missing. Only the owners of a Flo can replace its content.",
 ["histories","schedules"],"All orders and routes of deliveries, duplicates, old versions and cuckoo links of several realms.",
 "The tests store two versions in the right order through one route.",
 [DC,DI],[("version comparison","RealmStorage::upsert_flo"),("what to ask for","RealmStorage::sync_available"),("routes","Messages::msg_dest, msg_closest, msg_neighbour")],["DHTStorageOut answers, messages to the router"],
 technique="model-based monitor of the running storage module behind a recording router broker",
 note="Space is ample here (D01 covers eviction). Known finding: forged updates are stored, as the storage never verifies.")
prop("D03","Only accepted realms are stored, and hostile messages do no harm",
 "A node restricted to some realms stores, requests and returns only Flos of these realms, and a realm comes to life only with its own realm Flo. A Flo is only ever returned for its own realm and ID. Malformed, senseless or hostile messages from the network change nothing and crash nothing, and a full realm doesn't affect the others.",
 ["inputs","histories"],"All acceptance lists, deliveries by any route in any order, and byte strings sent as messages.",
 "No test uses a restricted node or malformed messages.",
 [DI,DC],[("acceptance","DHTConfig::accepts_realm, Messages::upsert_flo"),("parsing","NetworkWrapper::unwrap_yaml")],["stored realms and Flos, outgoing messages"],
 technique="model-based monitor with hostile deliveries, cross-realm reads and a panic monitor",
 note="Random histories. Known finding: a realm-typed Flo which isn't the realm's own can create the realm.")
prop("D04","A node which restarts has the same realms, Flos and cuckoos as before",
 "A node stopped after any write to its persistent storage and started again from it has the realms, Flos, versions and cuckoos it had at that write, and then behaves like a node which never stopped. Once an operation is acknowledged, its effect is persisted. A start which cannot read the storage does not destroy it.",
 ["crash points","histories"],"All histories, all points between two writes.",
 "One test stores a Flo and starts a second instance.",
 [DI,"flmodules/src/dht_storage/broker.rs"],[("persisting","Messages::store, InternOut::UpdateStorage"),("loading","Messages::new")],["state after restart"],
 technique="crash-point monitor: every write recorded, the module restarted from each recorded point and compared with the state at that time, then both driven on",
 note="Crash points are between storage writes; S02 covers crashes within one.")
prop("D05","Connected nodes end up with the same Flos once messages flow again",
 "On any connected graph of neighbours with enough space, whatever each node stored and whatever messages were lost or delayed before, a bounded number of undisturbed synchronization rounds brings every node to the newest version of each Flo and to all cuckoos of the realms it accepts; after that nothing is requested any more.",
 ["schedules","histories"],"All graphs, distributions of Flos and versions, losses and reorderings.",
 "The tests use up to four nodes in one topology without loss.",
 [DI,DC],[("neighbour synchronization","Messages::msg_neighbour, DHTStorageIn::SyncFromNeighbors"),("difference","RealmStorage::sync_available")],["state of all nodes"],
 technique="convergence monitor: nodes joined by a recording hub with random topology, loss and reordering, compared with the merged model",
 note="Graphs of up to seven nodes; lossless phase is as long as the number of nodes needs.")
prop("D06","What was stored can be read from any node of the network",
 "In a network where all nodes know each other, a Flo stored on any node can be read from any other node, unaltered and in its newest version, directly if one node is closest to it and otherwise after the nodes synchronized; the same is true for its cuckoos. Conditions which refer to verifiers and badges are resolved with what the network holds, missing parts become unavailable, and reading or resolving always ends with an answer, also if badges refer to each other.",
 ["schedules","inputs"],"All numbers of nodes, bucket sizes, storing and reading nodes, Flos and conditions.",
 "The tests read from one fixed small network.",
 [DB,DI,"flmodules/src/dht_router/broker.rs"],[("routing to the closest","DHTRouterIn::MessageClosest"),("waiting for answers","DHTStorage::send_wait"),("resolution","DHTStorage::convert")],["get_flo, get_cuckoos, convert"],
 technique="end-to-end monitor over simulated networks with real routing and storage modules",
 note="Two to nine nodes, bucket sizes one to three. Where several nodes share the longest prefix with a Flo, only findability after synchronization is claimed.")

KF="flmodules/src/dht_router/"
prop("K01","The routing table holds each node once, where it belongs, and finds the closest",
 "Whatever sequence of additions, removals, disconnections, answers and ticks: a node's routing table never holds itself, an unknown node, or a node twice; each node is in the bucket of its common prefix with the own ID, and no bucket has more than the configured number of active nodes. Routes lead only to active nodes strictly closer to the destination, or sideways if that still makes progress, the best first. Adding nodes never loses the last nodes of a depth, a node which answers becomes active, and a removed or disconnected node is gone at once without affecting any other.",
 ["inputs","histories"],"All node IDs, bucket sizes and sequences of operations.",
 "The tests add and remove a few hand-picked IDs.",
 [KF+"kademlia.rs"],[("buckets by depth","Kademlia::add_node, rebalance, KBucket"),("routes","Kademlia::route_closest, route_deeper"),("liveness","Kademlia::node_active, node_disconnected, tick")],["nodes by depth, active and cached nodes, routes"],
 technique="invariant and model monitor after every operation of random histories",
 note="Random histories of up to some hundred operations with crafted prefix depths.")
prop("K02","Nodes which stay silent are dropped, nodes which answer are kept and used",
 "A node in the routing table which stays silent is pinged after each interval and dropped after the timeout; a node which answers in time is never dropped. Nodes which are dead or disconnected are no longer used for routing, and the living nodes known for each depth get used again, also if they were only in reserve before.",
 ["histories","schedules"],"All patterns of answering, silence, disconnection and return of the nodes.",
 "One test lets one node time out.",
 [KF+"kademlia.rs",KF+"intern.rs"],[("ping and timeout","Kademlia::tick"),("answers","Messages::closest_or_connected, ModuleMessage::Ping, Pong")],["pings, routes and table after each tick"],
 technique="timed monitor over simulated ticks with scripted silent, answering and flapping nodes, on the table and on the running module",
 note="Random scripts; caches may take up to three timeouts to be used.")
prop("K03","Routed messages reach the right node, once, and routing always ends",
 "In a network whose nodes know each other a direct message reaches exactly its target, once; a message to the closest node ends exactly once, at a node which shares the longest prefix with the destination, and every node it passes reports it, in a chain without gaps; broadcasts and neighbour messages reach exactly the connected or named nodes. If nodes know only some others, or peers send senseless or hostile messages, routing still ends, nothing is delivered to a wrong node or twice, and nothing crashes.",
 ["schedules","inputs"],"All networks, bucket sizes, orders of delivery, sources, destinations, and hostile messages.",
 "The tests route a few messages in one fixed network.",
 [KF+"broker.rs",KF+"intern.rs"],[("next hop","Messages::message_closest, message_dest"),("delivery","DHTRouterOut::MessageDest, MessageClosest, MessageRouting")],["DHTRouterOut of all nodes"],
 technique="trace monitor over networks of running router modules joined by a hub with random order of delivery",
 note="Networks of up to some dozen nodes.")

GE="flmodules/src/gossip_events/"
prop("G01","The event store keeps the newest events, whatever the order they came in",
 "For each category the store holds exactly the newest events up to its limit, of node infos only the newest of each node, whatever the order and repetition in which events are added; nodes which saw the same events hold the same ones, also if several have the same time. Adding tells truthfully whether the event is new in the store, all views of the store agree, and it is the same after being saved and loaded, also from older formats; what can't be read changes nothing.",
 ["inputs","histories"],"All sequences of events of any time, source and text, all limits, all saved formats.",
 "The tests add two events; one old format is loaded.",
 [GE+"core.rs"],[("limits","Events::limit"),("newest of each node","Events::insert_unique"),("formats","EventsStorageSave")],["EventsStorage"],
 technique="model-based monitor over random histories and documents of all versions, with permuted replays",
 note="Histories of up to 400 events, limits from 0 on.")
prop("G02","Gossiping nodes end up with the same events, each announced once",
 "On any connected graph, whatever was lost, repeated or delayed before, and with nodes which restarted, a bounded number of undisturbed rounds brings every node to the same newest events of all those created, and then no events are exchanged any more. A node announces each event it newly stores exactly once and no others, what it shows is also what it saved, a restart loses nothing, it sends only to its peers, and malformed or senseless messages do no harm.",
 ["schedules","histories","crash points"],"All graphs, events, losses, duplications, orders, restarts, and hostile messages.",
 "The tests use a few nodes without loss, or look at a single message.",
 [GE+"intern.rs",GE+"broker.rs"],[("exchange","Intern::node_known_event_ids, node_events, tick"),("announcements","Intern::send_events"),("saving","Intern::store")],["GossipOut, RandomIn, stored events"],
 technique="trace and convergence monitor over nodes joined by a lossy, duplicating, reordering hub, against the model of all events",
 note="Graphs of up to six nodes.")
RC="flmodules/src/random_connections/"
prop("R01","A node keeps enough connections and always knows exactly which ones it has",
 "The list of connected nodes which the other modules get is, after each change, exactly the nodes which are connected, each once and with what was last heard of it. Messages to connected nodes are forwarded unaltered, once, to the right node, and messages to others are dropped; messages from the network arrive with their sender. A node never connects to itself, to unknown nodes, to connected ones or to those it already tries, nor to more than needed; nodes which fail, refuse or never answer are replaced, so that in the end enough nodes are connected if there are any.",
 ["schedules","histories"],"All networks with nodes which accept, refuse, stay silent, drop and come back, in any order.",
 "One test processes one list of nodes.",
 [RC+"intern.rs",RC+"core.rs",RC+"nodes.rs"],[("choice of nodes","RandomStats::fill_up, choose_new"),("bookkeeping","RandomStats::connect, disconnect, failure"),("timeout","Intern::msg_tick")],["RandomOut, NetworkIn"],
 technique="model-based monitor of the running module over simulated networks, with a liveness phase; lists of nodes against a plain model",
 note="Up to 100 nodes; the final phase is 600 ticks.")

NS="flmodules/src/network/signal.rs"
prop("N01","Only nodes which prove their identity are registered by the signalling server",
 "Each connection to the signalling server gets its own challenge, and is registered only by the first announcement which is signed over this challenge with the key of the announced node, whatever else is sent before. It then gets the configuration exactly once. Forged, replayed, repeated or malformed announcements register nobody, get no answer, and neither they nor other junk disturb the server.",
 ["inputs","histories"],"All announcements, honest or forged, on all connections in any order.",
 "The tests connect one or two honest nodes.",
 [NS],[("challenge","SignalServer::msg_in_ws_connect"),("check","SignalServer::ws_announce, NodeInfo::verify")],["SignalOut of the server"],
 technique="model-based trace monitor of the running server under random honest and hostile clients",
 note="Histories of up to 150 messages; eight kinds of forgeries.")
prop("N02","Setup messages reach exactly the other node involved",
 "A setup message sent by a registered node over its connection is delivered unaltered to the other node named in it, exactly once, if this one is registered. Setup messages from connections without a registered identity, or which name other nodes only, are delivered to nobody, and nothing is sent over connections which are gone.",
 ["inputs","histories"],"All setup messages, senders and histories of connections.",
 "The tests exchange setups between two honest nodes.",
 [NS],[("routing","SignalServer::ws_peer_setup")],["SignalOut of the server"],
 technique="model-based trace monitor of the running server under random honest and hostile clients",
 note="Histories of up to 150 messages.")
prop("N03","The server's lists show exactly the connected nodes",
 "The list of nodes holds exactly the registered nodes with their newest infos, each once, up to the configured length. Each new node is shown to all others; a node which connects again replaces its old connection, which is told so and has no identity any more. A connection is forgotten when it closes or when it was silent for more than the configured time, never earlier, whatever time is configured.",
 ["inputs","histories","schedules"],"All histories of announcements, disconnections, reconnections and minutes of silence; all configurations.",
 "The tests use a fixed configuration and look at the first list.",
 [NS],[("lists","SignalServer::ws_list_ids, send_msg_list_ids"),("timeouts","SignalServer::msg_in_timer"),("replacement","SignalServer::ws_announce")],["SignalOut of the server"],
 technique="model-based trace monitor of the running server under random honest and hostile clients",
 note="Histories of up to 150 messages.")
prop("N04","A node's network module reports connections and messages exactly as they are",
 "A node is reported connected when its first connection, in any direction, comes up, and disconnected when its last one goes down, strictly in turn; the list of connections shows the same. Every message to a node is handed once and in order to its connection, which is set up first if there is none, and the other node receives the same message from it. Setup messages are mapped to the right node and direction, challenges are answered with a valid announcement, the list is asked for regularly. Nothing that peers or servers send stops it.",
 ["inputs","histories"],"All histories of requests, connection events, server messages, texts and junk.",
 "The tests set up one connection between two nodes.",
 ["flmodules/src/network/intern.rs","flmodules/src/network/broker.rs"],[("connection states","Intern::msg_rtc, connect, disconnect"),("messages","Intern::msg_net, msg_wrapper"),("signalling","Intern::msg_ws, msg_tick")],["NetworkOut, Network::connections, WSClientIn, WebRTCConnIn"],
 technique="model-based trace monitor of the running module between a simulated signalling server and simulated connections; round trip of every text",
 note="Histories of up to 200 operations with up to five nodes.")
RO="flmodules/src/router/broker.rs"
prop("N05","Modules on top of the router see a consistent view of the network",
 "Before a node is announced as connected or disconnected, and before its messages are delivered, the lists of available and connected nodes already show it so; the announcements for each node alternate, and the lists always equal what the network reported. A message from a node not yet known as connected first makes it connected. Messages in both directions are passed on unaltered, once, and in order.",
 ["histories","schedules"],"All histories of network events, handled one by one or together.",
 "The tests check the lists after five single events.",
 [RO],[("bookkeeping","RouterNetwork::msg_net"),("translation","RouterRandom::translate_rnd_rtr, translate_rtr_rnd")],["RouterOut, NetworkIn, RandomIn"],
 technique="trace monitor which rebuilds the view of a consumer from the recorded messages and compares it with the model at each event",
 note="Random histories with up to six nodes.")

WC="flarch/src/web_rtc/"
prop("W01","Texts between two nodes arrive intact, once, and in order",
 "Every text given to the connections of a node, of any length and with any characters, arrives at the other node exactly as it was sent, once, and in order, also if it was given before the connection was up, and whichever of the two directions carries it; the packets of it may arrive in any order. No packet is bigger than what a data channel takes, nothing is sent over a direction which is not open. Setup messages and disconnections reach the right direction of the right node.",
 ["inputs","histories"],"All texts, and all histories of the two directions coming up and going down.",
 "The test splits one alphanumeric text in two.",
 [WC+"node_connection.rs",WC+"mod.rs"],[("packets","Packet::split_msg, PacketCollector"),("choice of the direction","NodeConnection::send_queue"),("connections","WebRTCConn")],["NCOutput of both nodes, WebRTCInput of their WebRTC systems"],
 technique="trace monitor between pairs of running connections whose WebRTC systems are replaced by the monitor",
 note="The WebRTC library itself is replaced, as it finds no usable address in the sandbox. Texts of up to 600'000 characters.")
prop("W02","Malicious packets of a peer do not harm the connections of a node",
 "Whatever packets a peer sends - senseless, inconsistent, with huge numbers, deeply nested, or never completed - the node does not crash or use much memory, nothing but complete texts is delivered, and the honest texts sent around them on this and the other connections still arrive intact and in order.",
 ["inputs","histories"],"All packets.",
 "No test sends an invalid packet.",
 [WC+"node_connection.rs"],[("packets","PacketCollector::new_packet")],["NCOutput, panics, memory"],
 technique="robustness monitor with injected hostile packets, a memory limit, and panic detection",
 note="Memory used by texts which are never completed is not limited by the code, and not claimed.")
prop("W03","The websocket server connects each client to its own messages only",
 "Each client which finishes its handshake is announced once with an ID never used before, then come its messages, unaltered and in order, then exactly one disconnection, if the client leaves, vanishes, sends junk, or is closed. Messages for a connection reach exactly its client, in order. Connections which never finish the handshake, clients which send junk or which don't read what they get, do not affect the others. Connections which are gone use no resources anymore; a closed connection or a stopped server sends and receives nothing.",
 ["histories","schedules","inputs"],"All clients and histories of connecting, sending, leaving, closing and stopping.",
 "The test connects two honest clients and exchanges two texts.",
 [WC+"libc/web_socket_server.rs"],[("connections","WebSocketServer::messages"),("reading","WSConnection::loop_read")],["WSServerOut, what the clients receive, open sockets"],
 technique="trace monitor of the running server with real honest and hostile clients over the loopback interface",
 note="Up to ten clients at a time; deadlines of 20 seconds of silence.")
prop("W04","The websocket client keeps its connection to the server",
 "While the client is connected, texts arrive in both directions unaltered, once and in order. If the connection ends in any way - closed properly or not, even while the client sends - it connects again; if the server is away, the client connects when it next has something to send. After a disconnection by the user nothing is sent and no connection is made until it is told to connect. It never crashes, and uses no CPU while nothing happens.",
 ["histories","schedules","faults"],"All histories of texts, ends of the connection, absences of the server, and commands of the user.",
 "The test connects once and exchanges two texts.",
 [WC+"libc/web_socket_client.rs"],[("reconnecting","WebSocketClient::listen, connect_ws"),("commands","WebSocketClient::messages")],["WSClientOut, what the server receives, CPU time, panics"],
 technique="trace monitor of running clients against a scripted, failing server over the loopback interface",
 note="Texts given while the connection is broken may be lost.")
WP="flmodules/src/web_proxy/"
prop("P01","A page fetched through another node arrives exactly as the server sent it",
 "The response of a fetch through another node has the status, all header fields and the whole body which the server sent, in order, and then ends, however big or slow the page is, however it is read, and however many pages are fetched at the same time by and through the same nodes. Each fetch asks exactly one connected node which offers this, and the page is asked once of the server; the named proxy is this node. A fetch which fails or breaks off, or whose proxy leaves, ends too, with nothing that the server didn't send. Neither broken servers nor senseless messages nor readers which leave stop a node.",
 ["inputs","schedules","faults"],"All pages, servers which fail in any way, numbers of concurrent fetches and speeds of reading.",
 "The only test needs the internet, and fetches one page.",
 [WP+"core.rs",WP+"intern.rs",WP+"broker.rs",WP+"response.rs"],[("requests and responses","WebProxyCore::request_get, handle_response"),("fetching","Intern::start_request"),("waiting for the answer","WebProxy::get")],["Response of WebProxy::get, RouterIn, requests at the HTTP server"],
 technique="end-to-end monitor comparing each fetched page with the script of a failing HTTP server, over joined running modules",
 note="HTTP over loopback, no TLS; pages of up to 600 kB, 20 at the same time. Values of headers which are not ASCII are not compared.")

RV="flmodules/src/dht_storage/realm_view.rs"; BLOB="flmodules/src/flo/blob.rs"
prop("V01","A page is found by its path, and whatever others store does no harm",
 "In a realm view, looking up a path returns a page which is reached from the root page by children, and pages attached to them (cuckoos), carrying the path's names one after the other; it returns it whenever at each step only one page has the name, nothing when there is none, and the root page is always found under its name. The full path of a page is made of the names of its first parents up to the top, and looking it up returns the page when the links lead down to it and are clear. The parent and the rest of a path agree with this. A view of a realm starts with the services of the realm, and only complete realms get one. Pages stored by anybody, with loops of parents or children, missing names, foreign types or very deep chains, never make a lookup crash, hang, or find anything else.",
 ["inputs","histories","configurations"],"All graphs of pages, tags and attached pages that owners and strangers can store; all paths.",
 "One unit test looks up seven paths in a tree of four pages; full paths, loops and strangers' pages have no test.",
 [RV,BLOB],[("path lookup over children and cuckoos","RealmStorage::get_path, get_path_internal"),("full path","RealmView::get_full_path_blob"),("fetching with cuckoos","RealmStorage::update_cuckoos")],
 ["get_page_from_path","get_page_parent_remaining","get_full_path_id","RealmView::new_first/new_from_id"],
 technique="model-based lookup oracle: every path of the view and disturbed ones compared with a graph model after every step of random histories with hostile pages",
 note="Ambiguous names: any page carrying the names is accepted, as the order is not specified. Graphs of up to about 60 pages, chains and paths up to 30000 deep.")

prop("V02","Changes to pages need the right keys, keep the links, and show what is stored",
 "Creating or changing a page or tag, setting a service of the realm, or building a realm succeeds if and only if the given signers are allowed to sign for it; a refused operation changes neither the view nor the storage. After a successful one, the view shows the page as given, the parents that these signers may change link to the page exactly once, former parents they may change no longer do, and all others stay as they are. All pages, tags and services in the view are those in the storage at any moment, reads following a store see it, and after an update a second view of the same storage shows the same.",
 ["inputs","histories"],"All sequences of operations by users with and without rights, on pages with nested conditions, through one or more views.",
 "The tests create a few pages as the owner; moving pages, refusals and several signers are never tried.",
 [RV,BLOB,"flmodules/src/dht_storage/broker.rs"],[("links of the parents","RealmView::create_http_cuckoo, update_page, update_child_links"),("conversion of conditions","DHTStorage::convert"),("stored and shown together","RealmView::store_page")],
 ["results of the operations","view and DHTStorage::get_flo after each operation"],
 technique="state-machine monitor: view and storage compared with a model after every operation of random histories, oracle for who may sign",
 note="Views change in turns, each updated before it changes something; concurrent changes from views that are behind are not claimed. Conditions with badges are left out (known finding of C04).")

ND="flnode/src/node.rs"
prop("F02","A node keeps its identity and its keys over restarts and failures",
 "Each start of a node with the same storage gives the same ID and key pair, and the name and modules which were last set; the signers of the node are the same ones, in the same order, and still sign. A storage which can't be read or written for a moment makes the start fail, or leaves this start without its keys, but never replaces what is stored. A first start succeeds only if the new identity is stored, a change is reported as done only if it is stored.",
 ["histories","faults"],"All histories of starts, changes and uses over storages that fail at any call.",
 "The tests start a node once over a working storage.",
 [ND,"flmodules/src/flo/storage.rs","flmodules/src/nodeconfig.rs"],[("identity","Node::get_config, set_config"),("signers","CryptoStorage::new, get_signer, add_signer")],["NodeConfig of each start, signers of each CryptoStorage"],
 technique="fault-injecting history monitor: every start compared with what was last stored",
 note="A storage with a damaged configuration text, and concurrent starts, are not claimed.")
prop("E01","Nodes of a network end up with the same chat, pages and nodes",
 "In a network of whole nodes, every text and page which a user gave to any node is in the end on all nodes: each text once, unaltered and under its writer's name, each page in its last version; all nodes know the infos of all others, and see them online. This holds although messages were lost, connections broke, the network fell apart for some time, and nodes left and restarted. Restarting a node loses nothing which it had; crashing loses at most what it was just given. At any moment a node shows only texts which were written, and as connected exactly the nodes it is connected to.",
 ["histories","schedules","faults"],"All networks, and all histories of texts, pages, losses, breaks, partitions, restarts and crashes.",
 "The tests join two or three modules of one kind, without losses or restarts.",
 [ND,"flnode/src/stat.rs","flmodules/src/gossip_events/broker.rs","flmodules/src/dht_storage/broker.rs","flmodules/src/random_connections/broker.rs","flmodules/src/dht_router/broker.rs"],
 [("joining the modules","Node::start"),("spreading","GossipBroker, DHTStorage, RandomBroker, DHTRouter"),("what is shown","Node::nodes_online, nodes_connected, nodes_info_all")],
 ["chat_events, nodes_info_all, nodes_online, nodes_connected of each node","pages read through each node","the storages"],
 technique="end-to-end trace monitor of whole nodes over a failing network, with crash injection at the storage's log and a convergence oracle",
 note="Networks of up to six nodes; the connections are the monitor's. Convergence is required some minutes after the last failure.")
