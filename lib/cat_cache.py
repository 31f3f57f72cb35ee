from props import *
import rules_coord as coord
CO = "apps/tablet_cache/service/src/transaction/coordinator.rs"
TR = "apps/tablet_cache/service/src/transaction/mod.rs"

prop("C01", "A transaction commits only when all its processing completed",
     "A commit request for a transaction leaves the tablet cache only if every processing step of that transaction completed successfully. Otherwise the commit ends in failure without any request, and a commit is never sent twice.",
     ["histories", "schedules"], "All sequences of transaction calls, in every state of every processing step.",
     "The tests run one two-step transaction to its end; they never commit while a step is in one of the other states.",
     [CO], [("commit", CO + ": commit_transaction")], CACHE, [coord.commit_request],
     "Every path of the commit operation is enumerated: the request is unreachable if any processing step is in a state other than completed, and the state afterwards awaits a response exactly when the request was sent.")
prop("C02", "A transaction succeeds only if all its tablet operations succeeded",
     "A committing transaction is reported as succeeded only if the response carries exactly one result per submitted operation and every one of them succeeded. Any other response to it makes it fail, and a response never leaves it undecided.",
     ["inputs", "fault_sequences"], "All responses: any number of results with any status.",
     "The tests feed three responses; missing, surplus and mixed results are not exercised.",
     [CO], [("response handling", CO + ": process_in_message")], CACHE, [coord.commit_outcome],
     "The successful outcome must be unreachable when one result has any other status or the number of results differs from the number of operations; the failing outcome must be unreachable when all succeeded.")
prop("C03", "Tablet metadata known after a commit is the one the store confirmed",
     "New tablet metadata becomes known to the cache only after all operations of its transaction succeeded. A failed operation that reports the tablet currently stored makes that one known and marks the cached one as conflicting.",
     ["inputs", "fault_sequences"], "All responses with any combination of operations, statuses and reported tablets.",
     "The tests cover one success and one conflict of a single tablet; partial failures are not exercised.",
     [CO], [("response handling", CO + ": process_in_message")], CACHE, [coord.metadata_updates],
     "All values that reach the metadata cache are traced to their origin: only (operation's metadata, no conflict) when all succeeded, for each updated tablet; only (reported tablet, conflict) for failed operations, for each of them.")
prop("C04", "Processing runs resolve, load, handler, store in order, each step once",
     "Each processing request of a transaction is resolved, loaded, handed to its handler exactly once with all tablets and their loaded data, and its updates stored, in this order and each only after the previous step succeeded. A failed step fails the processing; a finished one is not repeated.",
     ["schedules", "fault_sequences"], "All interleavings of progress of any number of transactions and any outcome of each step.",
     "The tests use mocks that complete at once in one order with two tablets.",
     [CO, TR], [("progress", CO + ": make_progress"), ("tablet", TR + ": Tablet")], CACHE, [coord.progress_stages, coord.handler_called],
     "Typestate of a processing step: each state change is only reachable in its source state with the awaited result in the required condition, and always happens there; arguments of resolve/load/store/handler are traced element by element.")
prop("C05", "Every tablet a transaction touched is checked or updated at commit",
     "For each tablet that a processing step of the transaction touched, the commit request contains an operation: an update with the new metadata if the step's handler wrote it, otherwise a check of its id and version. A written tablet never counts as unwritten.",
     ["inputs", "histories"], "All transactions over any number of processing steps and tablets, any subset of them written.",
     "The tests commit two tablets with one written; other combinations are not covered.",
     [CO, TR], [("commit", CO + ": commit_transaction"), ("tablet", TR + ": Tablet")], CACHE, [coord.tablet_ops],
     "The operations in the request are traced to the tablets of the processing steps: one per tablet (loop coverage), kind decided by the written flag, which only ever becomes true.")
prop("C06", "Commit responses are matched to the request they answer",
     "Each commit request carries a fresh identifier that is associated with its transaction, and a response is applied only to the transaction recorded for its identifier, at most once. Unknown or repeated responses have no effect.",
     ["histories", "fault_sequences"], "All sequences of requests and responses including duplicates, reordering and unknown identifiers.",
     "Tests answer requests in order once; duplicates and unknown identifiers are not sampled.",
     [CO], [("requests", CO + ": commit_transaction"), ("responses", CO + ": process_in_message")], CACHE, [coord.correlation],
     "The identifier is an incremented counter used both in the request and in the record; a response removes its record on every path and effects are unreachable if there was none.")
prop("C07", "Transactions have unique ids and a lifecycle without resurrection",
     "Every transaction gets an identifier not given before; it is pending while any of its processing is unfinished; its outcome is reported once it is known and not before, after which it is forgotten. An aborted transaction is discarded.",
     ["histories"], "All sequences of create, process, commit, abort, progress and result queries.",
     "Tests follow a single transaction through the straight sequence.",
     [CO], [("lifecycle", CO)], CACHE, [coord.lifecycle],
     "All operations that create, replace or remove transactions are tabulated with the conditions under which each is reachable; results returned are traced to the recorded outcome.")

import rules_data as data
import rules_meta as meta
DA = "apps/tablet_cache/service/src/transaction/data.rs"
prop("C10", "Metadata of a stored tablet describes exactly the stored contents",
     "Storing a tablet raises its version by one and sets size, hash and uri from the serialised contents and the new version, exactly once per tablet. If any tablet of the batch cannot be serialised the batch fails and no request is sent for any of them.",
     ["inputs"], "All batches of tablets with any contents, including ones that cannot be serialised.",
     "Tests store one or two tablets that serialise.",
     [DA], [("write preparation", DA + ": store_tablets, prepare_tablet_write")], CACHE, [data.written_metadata],
     "All writes to the metadata are tabulated with the origin of their value; loop coverage shows each tablet gets them once, in an order in which the uri sees the new version and hash.")
prop("C11", "Load and store batches complete exactly when all their tablets did",
     "A load or store of several tablets reports its result exactly when the last of its tablets is available, with every loaded tablet and its data; not earlier, also when some tablets are already cached, are requested twice or the batch is empty. Each pending tablet notifies every batch waiting for it once.",
     ["histories", "schedules"], "All sets of tablets, overlapping batches and all orders of responses.",
     "Tests complete batches of one or two tablets in one order; overlapping batches with cached members are not covered.",
     [DA], [("batches", DA + ": TabletBatch"), ("progress", DA + ": make_progress")], CACHE, [data.batch_result],
     "Counting discipline of outstanding tablets: the counter starts at the number of tablets before any is counted, is decremented only for available ones, every tablet is either counted or waited for; results are unreachable while tablets are outstanding and unavoidable when none is.")
prop("C12", "A failed tablet fails every batch that contains it, once",
     "If loading or storing a tablet fails, each load or store batch waiting for it reports a failure once and never a result afterwards. The failed tablet leaves the cache only after these batches were told, so that it is requested again next time.",
     ["histories", "fault_sequences"], "All mixes of failing and succeeding tablets in overlapping batches.",
     "Tests fail single-tablet batches.",
     [DA], [("batches", DA + ": TabletBatch"), ("progress", DA + ": make_progress")], CACHE, [data.batch_error],
     "Failure is unavoidable for each unfinished batch told about a failed tablet, moves the batch to a final state before its next tablet, and exactly the failed tablets are dropped after the notification loop.")
prop("C13", "Each unknown tablet is requested once and its response matched",
     "A tablet not in the cache is requested from the storage once, under a fresh identifier, however many batches want it; a known one is not requested again. A response affects only the tablet recorded for its identifier and only once; unknown responses have no effect. Different tablets never share a cache entry.",
     ["histories", "fault_sequences"], "All interleavings of loads, stores and responses, including duplicate and unknown responses.",
     "Tests use distinct tablets and in-order responses.",
     [DA], [("requests", DA + ": load_tablets, store_tablets"), ("responses", DA + ": process_in_message")], CACHE, [data.requests],
     "Request, record and cache entry occur together in each iteration over a vacant key and never for a known one; the identifier comes from an advanced counter; the key includes tablet id and uri.")
prop("C14", "Tablets leave the data cache only by failure or by the policy",
     "A cached tablet remains in the cache with its contents unless its load or store failed or the cache policy, asked with the configured capacity, chose to evict it. The default policy evicts nothing.",
     ["histories"], "All histories of operations.",
     "Tests do not look at the entries that should have stayed.",
     [DA], [("progress", DA + ": make_progress")], CACHE, [data.eviction],
     "All removals and replacements of cache entries in all operations are enumerated and traced to the failure list or to the value returned by the policy.")
prop("C15", "Loaded data enters the cache only if it is what was written",
     "Contents received from the storage become visible only if the storage reported success, their hash equals the one in the tablet metadata (where the tablet has one) and they can be deserialised; otherwise the tablet fails. Stored contents count as cached only after the storage reported success.",
     ["inputs", "fault_sequences"], "All responses of the untrusted data storage: any status, any contents.",
     "Tests answer with the right contents or a failure status, not with wrong contents.",
     [DA], [("read preparation", DA + ": prepare_tablet_read"), ("responses", DA + ": process_load_response, process_store_response")], CACHE, [data.verified_contents],
     "The cached state is unreachable under each deviating branch outcome (status, hash comparison, deserialisation) and unavoidable when all are right; the failed state the other way round.")

ME = "apps/tablet_cache/service/src/transaction/metadata.rs"
prop("C20", "Every key resolves to the tablet that owns it on the ring",
     "Resolving a table query maps each of its keys exactly once, to the tablet whose id is the first one at or after the key in the tablet list of the key's region, or to the first of the list if there is none (the ring wraps around). The region of a key is the key divided by the region size. Resolved metadata is that of exactly this tablet in the same table; a stale region resolves nothing.",
     ["inputs"], "All queries with any keys over any region size and tablet layout.",
     "Tests resolve a few keys in one or two regions.",
     [ME], [("tablet lookup", ME + ": try_resolve_pending_query"), ("region split", ME + ": split_and_map_query")], CACHE, [meta.key_owner, meta.split],
     "The lookup expression of each key is traced symbolically (range from the key, first as fallback only when the range is empty); a grouping discipline over the loop shows a key joins a group only if the group's tablet is its own, a group is emitted before it changes and exactly once, and the last one is emitted.")
prop("C21", "A resolution completes once, when all its regions are known",
     "A resolution reports its result (through the handle or the handler) exactly when no region it needs is stale, with all keys of all tablets found. Until then it waits at each stale region; when a region becomes fresh every waiting resolution is notified, its queries for this region are resolved and removed. Resolutions never share an identifier.",
     ["histories", "schedules"], "All overlapping resolutions and all orders of list responses.",
     "Tests run one resolution over at most two regions.",
     [ME], [("resolution", ME + ": TabletResolve"), ("responses", ME + ": process_in_message")], CACHE, [meta.completion],
     "Reporting is unreachable while queries are pending and unavoidable otherwise; loop coverage shows each query of a stale region is kept and registered and each waiter is read before the region turns fresh and notified after.")
prop("C22", "Every stale region in demand is listed until listing succeeds",
     "Each region that is stale, wanted and not being listed gets exactly one list operation covering exactly its key range, sent in one request under a fresh identifier. A failed listing keeps the waiting resolutions and makes the region eligible again; a successful one replaces its tablets by exactly the listed ones. All regions of every configured table start stale.",
     ["histories", "fault_sequences"], "All configurations, demands and sequences of failing and succeeding responses.",
     "Tests use one table and responses that succeed.",
     [ME], [("requests", ME + ": prepare_list_op, maybe_prepare_list_op"), ("responses", ME + ": update_region, mark_stale, mark_fresh"), ("tables", ME + ": TableMetadata::create")], CACHE, [meta.listing, meta.tables_init],
     "Branch outcome analysis of the list operations and region states; symbolic bounds of the regions; loop coverage over tables, regions and listed tablets.")
prop("C23", "Known tablet metadata never goes back to an older version",
     "The metadata known for a tablet is replaced only by metadata of the same tablet with a higher version, from updates and from listings alike, and is never dropped. A conflict makes the region of the tablet stale without losing the resolutions waiting for it; an update without conflict does not.",
     ["histories", "schedules"], "All orders of updates and list responses, including late ones.",
     "Tests apply updates in version order.",
     [ME], [("latest version", ME + ": insert_latest_tablet"), ("conflicts", ME + ": update_tablet, mark_stale")], CACHE, [meta.latest],
     "All replacements in the map of known tablets are enumerated and shown unreachable when the known version is at least as high, and unavoidable when it is lower or unknown.")

import rules_mgr as mgr
import rules_store as store
import rules_actor as actor
MG = "apps/tablet_cache/service/src/transaction/manager.rs"
RE = "apps/tablet_cache/service/src/transaction/result.rs"
ST = "apps/tablet_cache/service/src/store.rs"
AC = "apps/tablet_cache/service/src/actor.rs"
MN = "apps/tablet_cache/app/src/main.rs"
prop("C30", "Requests and responses reach exactly the component they belong to",
     "Every request taken from the transaction coordinator, the metadata cache and the data cache is sent with its own identifier and contents, and every load, store, list or other operation result is delivered once to the component that asked, under the same identifier. Components number their requests from starting points at least 2^32 apart, so identifiers do not collide.",
     ["inputs", "histories"], "All messages of all kinds, with any mix of operation results.",
     "The tests send one message of each kind.",
     [MG, MN], [("responses", MG + ": process_in_message, process_in_tablets_op_response"), ("requests", MG + ": take_out_messages"), ("numbering", MN)], CACHE + ["tablet_cache_app"], [mgr.in_routing, mgr.out_routing, mgr.correlation_spaces],
     "All deliveries and all outgoing messages are tabulated with the origin of each part; loop coverage shows that no element is dropped; the starting points are read from the application's construction code.")
prop("C31", "A tablet operation without a result counts as failed",
     "When a tablet operations request ends in an error, or its response lacks the result of some operation, the operations concerned are reported to their component as failed, each with a result of its own kind (for listings with its own key range). Results that are present are never overwritten.",
     ["fault_sequences", "inputs"], "All requests with any operations, answered by errors or by responses with missing or empty results.",
     "The tests answer all operations.",
     [MG], [("prepared failures", MG + ": take_out_messages, create_failed_op_result"), ("completion", MG + ": process_in_message")], CACHE, [mgr.failed_ops],
     "The prepared failure results are traced operation by operation (kind, range, status); insertion into the response is reachable exactly for positions without result and precedes the delivery.")
prop("C32", "The transaction manager drives all its components on every progress",
     "Progress, initialisation, resolution and all transaction calls reach the component concerned exactly once with the caller's arguments; an outcome that was reported once stays the same for its transaction.",
     ["histories"], "All sequences of manager and transaction calls.",
     "The tests check each call once against mocks.",
     [MG], [("manager", MG + ": DefaultTabletTransactionManager"), ("transaction", MG + ": DefaultTabletTransaction")], CACHE, [mgr.lifecycle],
     "Each operation is shown to perform its delegated call exactly once on all paths with arguments traced to its own; the outcome is asked for only while it is unknown.")
prop("C33", "Result handles report one outcome, once set never changed",
     "A handle shares its state with its source, reports nothing until the source sets a value or an error, and then always reports exactly that; a source cannot set it a second time.",
     ["histories"], "All orders of setting and checking.",
     "The tests set one result.",
     [RE], [("handles", RE)], CACHE, [mgr.handles],
     "All writes to the shared state are enumerated and are unreachable once something is set; the reported value is decided per state.")
prop("C40", "A key value response leaves the store only after its transaction commits",
     "Responses to put and get requests become visible only when the transaction in which they were processed is known to have succeeded, and then all of them do. A transaction is committed only after all its processing, once.",
     ["histories", "fault_sequences", "schedules"], "All sequences of requests, commits, failures and retries.",
     "The tests commit one transaction at a time.",
     [ST], [("finalisation", ST + ": maybe_finalize_transaction"), ("commit", ST + ": maybe_commit_transaction")], CACHE, [store.responses_committed],
     "Publication of responses is unreachable under every other outcome and unavoidable for each succeeded transaction; the same for the commit and pending processing.")
prop("C41", "No key value request is lost or answered twice by batching and retries",
     "Every accepted request is in exactly one stage: pending, waiting for resolution, pending at its tablet, being processed, or recorded with its transaction. Requests of failed transactions and ones left unprocessed are retried, a finished transaction frees its tablets, and a tablet is in one transaction at a time.",
     ["histories", "fault_sequences"], "All sequences of requests and any outcome of resolutions and transactions.",
     "The tests follow single requests through a success and one conflict.",
     [ST], [("stages", ST + ": RequestTracker, TabletTracker, TransactionTracker")], CACHE, [store.requests_kept],
     "Each stage change is tabulated as a pair of removal and insertion that happens together on all paths, with loop coverage over tablets, transactions and requests and origins of the moved collections.")
prop("C42", "Put and get act on the contents of the tablet that owns their key",
     "A get answers the value and existence of its key in the contents of its tablet as left by the puts before it; a put stores its value there and answers whether the key existed. A request is processed only with a query covering its key's hash, and the tablet gets new contents exactly when something was put.",
     ["inputs", "histories"], "All keys, values and batches of requests.",
     "The tests use two keys.",
     [ST], [("processing", ST + ": process_table_query, process_put_request, process_get_request")], CACHE, [store.key_semantics],
     "All changes of the contents and all answers are tabulated with the origin of key, value and existence; paths relate the put to the update of the tablet.")
prop("C43", "The key value store uses its configuration",
     "After initialisation the store addresses the configured table and uses the configured thresholds for resolving and for processing.",
     ["configurations"], "All configurations.", "The tests use one configuration for both thresholds.",
     [ST], [("initialisation", ST + ": init")], CACHE, [store.store_config],
     "Each piece of configuration is traced from the argument of the initialisation to the state it governs.")
prop("C50", "The tablet cache actor answers, forwards and progresses on every command",
     "Each command is handed to the store or the transaction manager according to its kind with its identifier and payload, after which both make progress and all their output leaves as commands with its own identifier and contents. Commands that cannot be decoded end in an error without effect.",
     ["inputs", "histories"], "All commands, including undecodable ones and ticks without command.",
     "The actor has no unit tests.",
     [AC], [("commands", AC + ": on_process_command"), ("initialisation", AC + ": on_init")], CACHE, [actor.routing, actor.progress, actor.init],
     "All deliveries and outgoing commands are tabulated with origins; order and coverage of the progress steps hold on every completed path.")
