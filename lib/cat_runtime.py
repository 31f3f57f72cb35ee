from props import *
import rules_log as lg
LG = "runtime/src/logger.rs"
RT = ["tcp_runtime"]
BOTH = ["tcp_runtime", "tcp_runtime_enclave"]
prop("R01", "Every log record becomes one message with its severity, text and values",
     "Every record given to the remote logger adds exactly one message at the end of the log: its severity is the one of the level, and it has the text, level, file, line, and all keys and values of the record and of the logger. Nothing is filtered and logging never fails.",
     ["inputs", "configurations"], "All records of all levels, with any keys and values, in both builds of the logger (with and without the standard library).",
     "No test of the repository logs anything.",
     [LG], [("message", LG + ": create_log_message"), ("drain", LG + ": RemoteDrain::log, RemoteDrainCore::append_entry"), ("values", LG + ": ValueSerializer")], BOTH, [lg.record, lg.values],
     "The message added is computed for each of the six levels and its parts are compared with the record; both sets of values are shown to be serialised before, and each value's key and content to be kept.")
prop("R02", "Log messages are taken once, all of them, in order",
     "Taking the entries of the remote logger returns all messages logged since they were last taken, in the order they were logged, and removes exactly these. What is logged through the returned logger is what the returned output gives.",
     ["histories", "schedules"], "All sequences of logging and taking, in both builds of the logger.",
     "No test takes log entries.",
     [LG], [("output", LG + ": RemoteDrainCore::take_entries"), ("creation", LG + ": create_remote_logger")], BOTH, [lg.take, lg.wiring],
     "The returned list and every effect on the log are compared with taking everything; the log shared by drain and output is identified by the place where it is created.")
import rules_storage as so
SO = "runtime/src/storage.rs"
prop("R10", "The raft log is appended to without gaps and never loses compacted entries",
     "Appending entries replaces exactly the entries from the first new index on and adds all new ones in order. Entries that would leave a gap, or overwrite what was compacted, are never accepted: the application stops. Appending nothing changes nothing.",
     ["inputs", "histories", "crash_points"], "All sequences of appended entries, with and without entries already in the log.",
     "The tests append to a few logs of three or four entries.",
     [SO], [("append", SO + ": MemoryStorageCore::append_entries, first_entry_index, last_entry_index")], RT, [so.append],
     "The two forms of the log (with entries, only a snapshot) are each combined with every position of the new entries relative to it; effects and completion are compared for each.",
     assumptions=["entries given to the store are consecutive, as raft-rs produces them"])
prop("R11", "The raft log returns the entries and terms asked for or says why it cannot",
     "A range of entries is returned exactly, cut only by the size limit; compacted or missing entries are reported as such, and a range beyond the end stops the application. The term of an index is the one of its entry or of the snapshot. First and last index, hard state and configuration are those stored.",
     ["inputs", "histories"], "All indices, ranges and contents of the log.",
     "The tests read a few ranges of small logs.",
     [SO], [("reads", SO + ": entries, entry_term, initial_state")], RT, [so.reads],
     "Each position of the requested index or range relative to first, last and snapshot index is an assumption under which every reachable result is compared.")
prop("R12", "Raft snapshots replace the log consistently and never move it backwards",
     "Installing a snapshot empties the log, stores the snapshot and takes over its index as committed and its term unless the current is higher; creating one stores data, configuration, index and the term of that index and drops exactly the entries before it. Outdated snapshots are refused without any effect. Requests of peers the snapshot satisfies, and only these, are dropped.",
     ["inputs", "histories", "crash_points"], "All snapshots at all states of the log.",
     "The tests use a handful of indices.",
     [SO, "runtime/src/util.rs"], [("snapshots", SO + ": apply_snapshot, create_snapshot, set_snapshot, compact_entries")], RT, [so.snapshots],
     "All effects on log, hard state, snapshot and pending requests are tabulated; the predicate that drops requests is decided separately for each kind of member and position, and shown to look at the new snapshot.")
prop("R13", "A requested snapshot is given out when it fits, or remembered until one does",
     "A peer gets the snapshot only if it covers the requested index and its configuration has the peer as voter, learner or outgoing voter. Otherwise the request is remembered and a snapshot is taken as soon as one at the applied index would satisfy it, or when the last is further behind than configured, and not otherwise.",
     ["inputs", "histories", "configurations"], "All requests, memberships and distances.",
     "The tests have single requests from one kind of member.",
     [SO, "runtime/src/util.rs"], [("requests", SO + ": try_satisfy_request, should_snapshot"), ("membership", "runtime/src/util.rs: config_state_contains_node")], RT, [so.requests],
     "Combinations of kind of member, index and distance are assumptions under which all reachable answers are compared.")
import rules_snapshot as sn
SN = "runtime/src/snapshot.rs"
prop("R20", "Snapshots are sent only while leading and received only while following",
     "A replica gives out the snapshot sender exactly while it is the leader it knows of and the receiver otherwise, starting as follower. Whenever leader or term change or the replica leaves the cluster, transfers of the role held so far are discarded, and the cancelled ones are reported; otherwise transfers go on undisturbed. An uninitialised processor is never used.",
     ["histories", "inputs"], "All sequences of cluster changes.",
     "The tests use mocks for six particular changes.",
     [SN], [("roles", SN + ": DefaultSnapshotProcessor")], RT, [sn.roles],
     "Each role and kind of change is an assumption under which the resets, the new role and the returned cancellations are compared; what is compared with the new leader is shown to be read before or after it is stored.")
prop("R21", "A snapshot is split into consecutive chunks, each sent once, within the limit",
     "A transfer gets a fresh snapshot id and the number of chunks its size needs, and replaces an earlier one to the same peer. Each request has a fresh delivery id and carries the next chunk, exactly its slice of the data; the first carries size and metadata of the snapshot. No request is made when the limit of chunks in flight over all transfers is reached, for failed or finished transfers, or when no chunk is left.",
     ["inputs", "histories", "configurations"], "All snapshot sizes, chunk sizes, limits and numbers of concurrent transfers.",
     "The tests send snapshots of up to nine bytes to one or two peers.",
     [SN], [("start", SN + ": DefaultSnapshotSender::start, SnapshotSenderState::new, chunk_count"), ("requests", SN + ": next_request, next_chunk")], RT, [sn.chunks],
     "The term of every request is compared with the slice at the chunk's index; counters are shown to be read on one side of their increment; the limit is shown to cover every transfer, and bookkeeping and sending to happen together.",
     assumptions=["the configured chunk size is positive and the counters do not wrap"])
prop("R22", "A snapshot transfer finishes only when every chunk was acknowledged",
     "An answer counts once, only if it is for the current transfer to that peer, a chunk in flight under that delivery id, and accepted. A failed, undecodable, rejected or mismatched answer fails the transfer; answers for another transfer change nothing. A transfer is reported exactly once: finished when all chunks are acknowledged, failed otherwise; a reset reports all open ones as failed. Requests to a leader are rejected.",
     ["inputs", "histories", "schedules"], "All answers in any order, including duplicates and answers of earlier transfers.",
     "The tests send seven kinds of answer to fresh transfers.",
     [SN], [("answers", SN + ": process_response"), ("completion", SN + ": try_complete, reset, process_unexpected_request")], RT, [sn.acks],
     "Every class of answer is an assumption under which the effects on the transfer are compared; completion and removal are shown to go together for every visited transfer.")
prop("R23", "A received snapshot is assembled from its own chunks only, whole and in order",
     "A chunk is accepted only from the sender and for the snapshot of the transfer in progress, with an index in range and exactly the size due there; everything else is rejected without any effect. A header starts a new transfer if its first chunk can be part of the snapshot, and is rejected otherwise. The snapshot is handed over once all chunks are there, as their concatenation in order with the announced metadata; undecodable metadata is reported. Every answer goes to the sender under its delivery id.",
     ["inputs", "histories", "schedules"], "All requests in any order, including delayed ones of earlier transfers and malformed ones.",
     "The tests send up to two chunks in order; the one for a foreign snapshot fails on the size of the chunk.",
     [SN], [("requests", SN + ": DefaultSnapshotReceiver::process_request, ReceiverState::accept_chunk"), ("assembly", SN + ": ReceiverState::try_complete")], RT, [sn.receive, sn.assemble],
     "Every class of request is an assumption under which answer and effects are compared; the assembly is shown to take every index of the range once, in order.",
     assumptions=["a request carries a payload; the transport fills it in when it decrypts a message"])
import rules_comm as cm
CO, HD, EN, SE = "runtime/src/communication.rs", "runtime/src/handshake.rs", "runtime/src/encryptor.rs", "runtime/src/session.rs"
prop("R30", "Messages to replicas wait for the handshake and leave only encrypted",
     "A message to another replica is kept under its recipient, in order, whatever the state of the handshake, and only a heartbeat replaces a waiting heartbeat. The first message starts a handshake as initiator. What leaves is a handshake message, or a kept message, once, whose payload was encrypted by the session of its recipient, and only when that handshake is complete and no handshake message is pending. A message that cannot be encrypted is never sent.",
     ["inputs", "histories", "schedules"], "All messages to all peers, in every state of the handshake.",
     "The tests send a few messages of each kind through mocks.",
     [CO], [("outgoing", CO + ": process_out_message, push_or_replace_unencrypted_message"), ("taking", CO + ": take_out_messages, take_encrypted_messages")], RT, [cm.send, cm.take_out],
     "State and peer are assumptions under which effects and messages are tabulated; every message in the returned list is traced to the write of its ciphertext and to the loop over all peers and waiting messages.",
     assumptions=["own messages carry a payload"])
prop("R31", "A replica's message is accepted only if the session with its sender decrypts it",
     "A message from another replica is given on only if the handshake with its sender is complete and that session decrypts its payload; then it carries the plaintext. Messages that are not genuine, have no payload, or arrive before completion or after a failure are dropped without any effect on the application. A handshake message is processed only before completion; the channel is complete only when its session is, and uses the keys of that session. A new handshake, or anything but a handshake message before completion, fails the channel.",
     ["inputs", "histories", "schedules"], "All messages from all peers, including malformed and forged ones, in every state of the handshake.",
     "The tests send well-formed messages in the expected order, and one wrong one.",
     [CO], [("incoming", CO + ": process_in_message, decrypt_message")], RT, [cm.receive],
     "Each kind of message, state and result of the session is an assumption under which the result, the state and all effects are compared; no delivered message avoids the write of its decrypted payload.")
prop("R32", "Failed or unanswered handshakes are retried and channels end with membership",
     "With every tick a handshake waiting for its answer comes closer to failure, and a failed one to its retry, each after the configured number of ticks; a retry starts afresh, without the old session and keys but with all waiting messages. Other states are untouched. When the cluster changes exactly the channels to former members are dropped, all of them if this replica is no longer a member. Sessions use the configured reference values and endorsements.",
     ["histories", "schedules", "configurations"], "All sequences of ticks, failures and cluster changes.",
     "The tests use one configuration of ticks and two cluster changes.",
     [CO], [("ticks", CO + ": make_tick, reset_state_machine"), ("membership", CO + ": process_cluster_change"), ("configuration", CO + ": init")], RT, [cm.lifecycle],
     "The transitions of every peer in one iteration are tabulated against its state and counter; parts of a reset are shown to go together.")
prop("R33", "A handshake session completes only when the attested session is open",
     "A handshake session gives each message of its peer's role to the attested session, exactly once and only while one is due, and fails on everything else. It completes only after the attested session is open and the last message was taken; only then it gives out keys, those of that session. Its messages name sender and recipient and carry exactly what the attested session wants to send. The initiator uses a client session and the recipient a server session.",
     ["inputs", "histories"], "All messages in all states, for both roles.",
     "The tests run the expected sequence with mocks and a few wrong messages.",
     [HD], [("sessions", HD + ": ClientHandshakeSession, ServerHandshakeSession"), ("provider", HD + ": DefaultHandshakeSessionProvider")], RT, [cm.handshake],
     "State, kind of message and result of the attested session are assumptions under which state, calls and results are compared, for both roles.")
prop("R34", "Payloads are the ciphertext of the session and decrypt to what it read",
     "Encrypting writes the plaintext to the session and returns ciphertext and nonce of the message the session gives out for it; decrypting gives the session a message with the payload's ciphertext and nonce and returns what the session then reads. Every failure of the session is returned as an error, and nothing is returned in its place.",
     ["inputs", "histories"], "All payloads, for both roles.",
     "The tests use mocks with one payload.",
     [EN], [("encryption", EN + ": DefaultClientEncryptor, DefaultServerEncryptor")], RT, [cm.cipher],
     "Result and order of the calls on the session are compared for each outcome of each call.",
     assumptions=["encrypted messages of the session carry a nonce"])
prop("R35", "Sessions attest both replicas against the configured reference values",
     "Every session between replicas attests both sides: it presents this replica's evidence, endorsements and binding, and verifies the peer with the verifier and key of the configured kind. The verifier without hardware attestation is used only when the reference values ask for it and are complete; containers on hardware are verified with all policies of all layers; everything else as restricted kernel. Without a verifier no session is created. The sessions pass all messages on unchanged.",
     ["configurations", "inputs"], "All reference values and both roles.",
     "The tests do not create real sessions with container reference values.",
     [SE], [("verifier", SE + ": DefaultOakSessionFactory::init"), ("sessions", SE + ": get_oak_client_session, get_oak_server_session, DefaultOakClientSession, DefaultOakServerSession")], RT, [cm.attest],
     "Each form of the reference values is an assumption under which verifier, policies and key are compared; the configuration of both kinds of session is taken apart and compared part by part.")
import rules_driver as dr
DR, CN = "runtime/src/driver.rs", "runtime/src/consensus.rs"
prop("R40", "A replica works only between start and stop, and ephemeral ones never replicate",
     "A message that the replica cannot process in its state is rejected with an error and has no other effect: everything but start, stop, lameduck mode and application messages before the start or after the stop, a second start, and replication messages at an ephemeral replica. The actor gets nothing before the start or after the stop. An ephemeral replica uses neither Raft nor snapshots. A message of no known kind changes nothing.",
     ["inputs", "histories"], "All kinds of messages in all states, for both kinds of replicas.",
     "The tests send a few messages before the start.",
     [DR], [("dispatch", DR + ": receive_message"), ("state", DR + ": check_driver_state, check_non_ephemeral")], RT, [dr.gate],
     "Kind of message, state and kind of replica are assumptions under which results and all effects of the whole call are compared.")
prop("R41", "Committed entries reach the actor in order, each once, and unchanged",
     "Every committed entry that Raft reports is processed exactly once and in the order of its index: an event goes to the actor with its index, its own correlation id and contents, and is owned exactly if this replica proposed it; a change of the cluster goes to Raft and the resulting cluster is kept; an empty entry does nothing. Each advances the applied index. The commands of the event leave as messages to the application. A damaged entry or a refused event ends the call with an error.",
     ["histories", "inputs", "sequences"], "All committed entries, of both stages of a ready state.",
     "The tests commit at most two entries per call.",
     [DR], [("application", DR + ": apply_raft_committed_entries"), ("snapshots", DR + ": restore_raft_snapshot")], RT, [dr.commit],
     "Both lists of committed entries are followed element by element; the sort before them, the arguments of the actor and Raft, and the writes of the progress are tabulated per class of entry.")
prop("R42", "State is stored before Raft advances and before anything leaves the replica",
     "For every ready state, a changed hard state, a snapshot and new entries are stored, the snapshot before the entries, and the actor has loaded the snapshot, before Raft is told to go on; entries are acknowledged only after both lists of them were applied. If storing fails, neither Raft goes on nor anything is sent. Messages leave the replica exactly once, at the end of the call, and none is lost.",
     ["histories", "crash_points", "inputs"], "All ready states and all failures of the store and the actor.",
     "The tests use mocks for one ready state.",
     [DR], [("ready", DR + ": advance_raft, restore_raft_snapshot"), ("sending", DR + ": receive_message")], RT, [dr.persist],
     "Order and arguments of all calls on Raft, the store, the actor and the host are compared over all paths of the call.")
prop("R43", "Every message of Raft goes to its recipient, over the secure channel",
     "Each message that Raft wants to send is handed to the secure channel once, with this replica as sender, the recipient of the message, its serialised contents and its kind; only messages with a snapshot are kept for the chunked transfer instead. Nothing else is sent to replicas but snapshot chunks and answers to them. The messages of the channels leave with the same call, after all messages were handed over.",
     ["histories", "sequences"], "All messages of all three lists of a ready state.",
     "The tests send one message of each list.",
     [DR], [("messages", DR + ": send_raft_messages, stash_comms_module_entries")], RT, [dr.relay],
     "All calls on the secure channel are tabulated; each list is followed element by element.",
     assumptions=["Raft messages can be serialised"])
prop("R44", "Snapshots are made, transferred and installed when they are due",
     "A snapshot of the actor is made exactly when the store asks for one, at the applied index with the current cluster, after Raft has advanced. Every snapshot message of Raft starts a transfer to its recipient, or is reported as failed if the replica is not sending; all chunks that may be sent are sent once. Raft learns of every completed or cancelled transfer with its outcome. A received snapshot is given to Raft once, as a message of the replica that sent it, if it is complete and undamaged.",
     ["histories", "schedules", "inputs"], "All states of the transfers and all outcomes.",
     "The tests run one transfer with mocks.",
     [DR], [("making", DR + ": maybe_create_raft_snapshot"), ("transfer", DR + ": process_snapshot_progress, process_snapshot_sending")], RT, [dr.snap],
     "Role and outcome are assumptions under which all calls on store, transfers and Raft are tabulated; chunks are followed from the sender to the secure channel.",
     assumptions=["a Raft message with a snapshot carries it"])
prop("R45", "Messages of peers have effect only if authenticated, addressed here, and intact",
     "A message of a peer passes the secure channel first; what the channel keeps or refuses has no further effect. A Raft message reaches Raft only if it decodes, names the authenticated sender as its origin, and is addressed to this replica; otherwise it is ignored. One that Raft does not accept because its sender was removed or it leads no more is dropped, every other failure of Raft ends the call. Chunks and responses reach receiver and sender only in the matching role, and each chunk is answered to its sender.",
     ["inputs", "histories", "schedules"], "All messages of all peers, including misrouted, malformed and late ones.",
     "The tests deliver well-formed messages.",
     [DR], [("Raft messages", DR + ": process_deliver_system_message, make_raft_step"), ("snapshots", DR + ": process_deliver_snapshot_request, process_deliver_snapshot_response, process_deliver_snapshot_failure")], RT, [dr.step],
     "Outcome of the channel, kind, addresses and role are assumptions under which all calls on Raft and the transfers are tabulated.")
prop("R46", "Time never goes back and Raft ticks once per period, never in lameduck mode",
     "The time of a replica is the largest it was given. The actor, its clock, the transfers and Raft see the time of the current call, and the actor sees the leadership of the start of the call throughout. Raft ticks exactly when the configured period has passed since the last tick, once per call, before its work is collected, and never in lameduck mode.",
     ["schedules", "histories"], "All sequences of times, including ones that go back.",
     "The tests use a few increasing times.",
     [DR], [("time", DR + ": preset_state_machine"), ("ticks", DR + ": trigger_raft_tick, advance_raft")], RT, [dr.time],
     "Every write of a time and every tick is tabulated against the guards on all paths to it.")
prop("R47", "A replica reports its state, its changes, and every answer asked for",
     "After every call that changed the state of leadership, term, cluster or pending changes, and after every request for it, exactly one report with the new state leaves; the committed cluster is part of it only on the leader. Channels and transfers learn of every change. A change of the cluster is proposed as asked and answered once, as pending if Raft took it and rejected otherwise. The state of the replica and its log messages are reported as they are.",
     ["histories", "inputs"], "All changes of the state and all requests.",
     "The tests check a few changes of the state.",
     [DR], [("reports", DR + ": stash_leader_state, get_raft_state"), ("cluster", DR + ": process_change_cluster, process_check_cluster"), ("state", DR + ": process_get_replica_state")], RT, [dr.report],
     "The comparison of old and new state and the outcomes of Raft are assumptions under which all messages to the host are tabulated.")
prop("R48", "A replica starts completely, with the configuration it was given, or not at all",
     "The start gives actor, Raft, store, transfers and channels the id and configuration of the request, or the defaults; the first leader starts with a snapshot of the actor at index 1 and itself as the only voter. The actor starts first, with its id and configuration. The replica runs and answers only after all of them have started; a failure ends the call with an error. The stop shuts the actor down, once.",
     ["configurations", "inputs"], "All requests to start, with and without configuration, leader and not, ephemeral and not.",
     "The tests start with one or two configurations.",
     [DR], [("start", DR + ": process_start_node, initialize_raft_node"), ("stop", DR + ": process_stop_node")], RT, [dr.start],
     "The parts of the request are assumptions under which all calls and writes are tabulated.",
     assumptions=["the request carries endorsements"])
prop("R49", "The Raft adapter passes everything to the Raft node and back unchanged",
     "Messages, proposals, changes of the cluster, ticks and reports go to the Raft node as they are, once, and its results come back. A ready state is given out completely and the same one is advanced later. The replica counts as leader exactly if the node is; only then it reports leader, term and pending changes. The node starts with the given store, which holds the first snapshot exactly if the replica is the first leader.",
     ["inputs", "histories"], "All calls.",
     "The adapter has no tests of its own.",
     [CN], [("adapter", CN + ": RaftSimple"), ("ready states", CN + ": RaftReady, RaftLightReady")], RT, [dr.adapter],
     "All calls of the adapter on the node, its store and the kept ready states are tabulated, with the returned values.")
prop("R4A", "Commands and events of the actor are passed on completely and unchanged",
     "Each application message is given to the actor once, unchanged, and every other call while the replica runs gives the actor one chance to progress. All commands that the actor returns leave, once. Its event is proposed to Raft once as an entry with this replica's id and the event's correlation id and contents, or, on an ephemeral replica, applied at once and its commands sent. All proposals are made in the same call; one that Raft drops is dropped, every other failure of actor or Raft ends the call. The channels tick once per call.",
     ["inputs", "histories"], "All messages, all outcomes of the actor and of Raft.",
     "The tests deliver one command with one event.",
     [DR], [("commands", DR + ": process_deliver_app_message"), ("proposals", DR + ": process_actor_raft_proposals, make_raft_proposal")], RT, [dr.actor],
     "Every call on the actor and Raft and every message to the application is tabulated; lists are followed element by element.")
SV = "runtime/src/service.rs"
import rules_service as sv
prop("R50", "Each host message is answered with exactly the messages of its own call",
     "The endpoint gives every request of the host to the driver exactly once, with its time and its message, and answers with all messages that the driver sent during this call, in the order they were sent, and with no message of another call. If the driver fails, there is no answer: the application ends, so that a replica in a broken state never speaks again; it does not end for another reason.",
     ["inputs", "histories"], "All requests and all outcomes of the driver.",
     "The service has no tests; the integration tests use another host.",
     [SV], [("endpoint", SV + ": ApplicationService::receive_message"), ("collected messages", SV + ": ApplicationHost")], RT + ["tcp_runtime_enclave"], [sv.endpoint],
     "Arguments of the call of the driver, identity of the list that the fresh host collects and the answer returns, and the paths after success and failure of the driver are compared.")
prop("R51", "The container service processes requests one by one, each answered to its sender",
     "All requests to the container service go through one channel to one loop that owns the driver. The loop gives each request to the driver once, with its time and message, and answers the sender of this request, once, with the messages of this call; it goes on until the channel is closed or the driver fails, and then ends with a panic. The caller gets the answer of the loop, or an error if the loop is gone. The end of the service closes the channel before it waits for the loop.",
     ["schedules", "inputs"], "All interleavings of callers, all requests.",
     "There are no tests of the container service.",
     [SV], [("loop", SV + ": TonicApplicationService::run_driver_loop"), ("callers", SV + ": TonicApplicationService receive_message"), ("end", SV + ": Drop")], RT, [sv.container],
     "The channel halves are followed from their creation into the loop and the service; requests and answers are paired by the received tuple on all paths of the loop.",
     assumptions=["mpsc and oneshot channels of tokio deliver what is sent"])
prop("R52", "A replica is made of the parts meant for its platform, in a clean state",
     "Both services create a driver that has not started, has no messages, proposals or snapshots, is neither ephemeral nor in lameduck mode, and contains the given actor. Its snapshot processor has the default sender and receiver; on the restricted kernel its sessions bind and attest with the kernel interfaces, in a container with the channel and the evidence of the orchestrator.",
     ["configurations"], "Both platforms.",
     "The tests build drivers from mocks.",
     [SV, DR], [("services", SV + ": ApplicationService::new, TonicApplicationService::new_driver"), ("driver", DR + ": Driver::new")], RT, [sv.wiring],
     "The driver value is evaluated symbolically from its constructors and compared field by field.")
prop("R53", "Deployed programs limit their log before serving, and attest as their platform",
     "Every deployed program limits logging to warnings and errors before anything else runs and never raises the limit again, so that its log does not reveal what it executes; it serves one service with its actor. Programs in containers attest with the evidence and the channel of the orchestrator, and give reference values for all layers of a container.",
     ["configurations"], "All five programs.",
     "The programs run only in an enclave; no test starts them.",
     list(sv.PROGRAMS.values()), [("programs", "main functions in " + ", ".join(sv.PROGRAMS.values()))], list(sv.PROGRAMS), [sv.programs],
     "Calls that set the log level are compared with all calls that create or serve the service on all paths of the entry points; arguments are traced to the orchestrator client.")
na("N01", "Replicas of a cluster never commit different entries at the same index",
   "In every cluster of replicas, whatever messages are lost, delayed, repeated or reordered and whichever replicas crash, no two replicas ever apply different entries at the same index, and an entry once committed is never lost while a majority survives.",
   ["schedules", "crash_points", "fault_sequences"], "All schedules and failures of a cluster of any size.",
   "A test runs a few schedules of three replicas.",
   [DR, CN, "runtime/src/storage.rs"], [("consensus", CN + ": RaftSimple"), ("log", "runtime/src/storage.rs: MemoryStorage")],
   "Agreement is a property of the protocol in raft-rs, whose sources are not part of this repository, and of all interleavings of several replicas; no static argument over this tree can decide it. What this tree contributes is decided: the log (R10-R13), the order of storing, applying and sending (R41-R43), and the adapter (R49).")
na("N02", "Committed tablet transactions are serialisable",
   "For every set of concurrent transactions of any number of tablet caches over one tablet store, the outcomes and values that were read are those of some sequential execution of the committed transactions.",
   ["histories", "schedules"], "All histories of all caches and the store.",
   "The tests run one transaction at a time.",
   ["apps/tablet_cache/service/src/transaction/coordinator.rs", "apps/tablet_store/service/src/actor.rs"], [("optimistic commit", "coordinator.rs: commit_transaction"), ("version checks", "actor.rs: TabletStoreActor")],
   "Serialisability quantifies over histories of several processes; it composes properties of the cache, the store and the replicated log by an argument over global states that a dataflow analysis of the source does not carry out. The local obligations it rests on are decided: every touched tablet is checked or updated (C05), all or nothing (C60), version checks (C61), outcomes (C01, C02), equal replicas (C65).")
na("N03", "Every request is eventually answered",
   "As long as a majority of the replicas and the network work, every transaction, key value request and command is eventually answered, every transfer of a snapshot and every handshake eventually completes, and no retry goes on forever.",
   ["schedules", "fault_sequences"], "All fair schedules.",
   "Tests stop when the expected answer came.",
   [DR, "apps/tablet_cache/service/src/transaction/manager.rs"], [("progress", "manager.rs: make_progress"), ("ticks", DR + ": trigger_raft_tick")],
   "Liveness depends on fairness of the host, the network and raft-rs, and on conflicts between transactions that have no static bound; no static argument in reach decides it. Its safety half, that nothing is dropped without an answer, is decided by C30, C32, C41, C50, R31, R32, R44 and R47.")
na("N04", "Memory and messages of a replica stay bounded",
   "Over any history, the memory of a replica, the number of outstanding requests and the size of its messages stay within limits given by the configuration and the stored data.",
   ["histories", "sequences"], "Histories of any length.",
   "Tests are short.",
   ["apps/tablet_cache/service/src/transaction/metadata.rs", "apps/tablet_cache/service/src/transaction/data.rs", DR], [("caches", "metadata.rs: DefaultTabletMetadataCache, data.rs: DefaultTabletDataCache"), ("log", "storage.rs: MemoryStorage")],
   "The bound is a runtime quantity: it depends on how many transactions, peers and requests are in flight and on the eviction policy, for which the code states no limit that a static analysis could check against.")
