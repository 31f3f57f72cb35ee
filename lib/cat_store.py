from props import *
import rules_tstore as ts, rules_rsm as rsm
TS = "apps/tablet_store/service/src/actor.rs"
AC = "apps/atomic_counter/service/src/actor.rs"
DE = "apps/willow/decryptor/actor/src/actor.rs"
STORE, COUNTER, WILLOW = ["tcp_tablet_store_service"], ["tcp_atomic_counter_service"], ["willow_decryptor_service"]

prop("C60", "The tablet store applies all operations of a request or none",
     "When a replicated request is applied, its updates take effect only if every operation of it succeeded, and then all of them do; list and check operations change nothing. The response is marked succeeded exactly in that case and has one result per operation in order.",
     ["inputs", "histories"], "All requests with any number, order and mix of operations, in any state of the tables.",
     "The tests send requests with one or two operations.",
     [TS], [("application", TS + ": on_apply_tablets_request, prepare_tablet_op, commit_tablet_op")], STORE, [ts.atomic, ts.results],
     "All state changes are enumerated and shown unreachable after a failed result and unavoidable per update otherwise; results are counted per iteration over the operations, for both kinds of response.")
prop("C61", "The tablet store accepts only updates to the next tablet version",
     "An update succeeds only if the tablet exists, the new version is the current one plus one and no earlier operation of the request updates that tablet; a check succeeds only for the current version. Anything else fails, reports the current tablet where it conflicts, and never brings the store down.",
     ["inputs", "histories"], "All operations, including unsupported and incomplete ones, against any table contents.",
     "The tests check one version difference.",
     [TS], [("preparation", TS + ": prepare_tablet_op")], STORE, [ts.version_check],
     "Thirteen cases of an operation are each followed through one iteration: the status, the table and the reported tablet of every reachable result are compared with the specification.",
     assumptions=["tablet versions stay below the maximum of their type"])
prop("C62", "Listing a key range returns every tablet that covers part of it, once",
     "The list for a range holds each tablet whose position follows a key of the range on the ring: those at or after its start up to the first covering its end, going around zero when the range or the ring wraps, without duplicates.",
     ["inputs", "configurations"], "All ranges and all tablet positions.",
     "The tests list two small ranges.",
     [TS], [("range search", TS + ": find_tablets")], STORE, [ts.list_coverage],
     "The searched intervals are compared with the two cases of the range; every tablet of an interval is shown to be listed unless listed before, and the wrap around cannot be skipped when no tablet covers the end.")
prop("C63", "Tablet store snapshots restore all tables; start-up creates what is configured",
     "A snapshot holds every table with every tablet, taking one changes nothing, and loading it replaces the tablets of each table in it by exactly those saved. Malformed snapshots and unknown tables are reported. Initialisation creates each configured table with its initial tablets.",
     ["histories", "crash_points", "configurations"], "All table contents and all snapshots.",
     "The tests load one snapshot with one table.",
     [TS], [("snapshot", TS + ": on_save_snapshot, on_load_snapshot"), ("initialisation", TS + ": on_init")], STORE, [ts.snapshot, ts.init],
     "Saved and restored items are tabulated with the origin of each field, and loop coverage is shown over tables and tablets; old contents are removed before the new ones are added.")
prop("C64", "Tablet store commands are replicated by the leader or answered with an error",
     "A well-formed request at the leader becomes one replicated event with the request and its correlation id and no immediate answer. At other replicas, or when header, message or payload are missing or malformed, there is exactly one error with that correlation id and no event. Processing a command changes no state.",
     ["inputs", "histories"], "All commands at all replicas.",
     "The tests send one request to a leader and one to a follower.",
     [TS], [("command gate", TS + ": on_process_command")], STORE, [ts.gate],
     "Six cases cover all commands; in each, every reachable outcome is compared with the expected event or error.")
prop("C65", "Applying the same events gives the same tables on every replica",
     "The tables after initialisation, loading a snapshot or applying an event depend only on configuration, snapshot, event and previous tables: not on leadership, ownership of the event, identity, time, randomness or map order.",
     ["histories", "schedules"], "All replicas and all sequences of events.",
     "The tests run a single replica; the integration test fixes the tablet ids.",
     [TS], [("application", TS + ": on_apply_event, on_load_snapshot, on_init, TabletConfigurator")], STORE, [ts.determinism],
     "Effect analysis: the sources of all state changes and of the branches that lead to them are traced and compared with the list of replica-local sources.")
prop("C70", "The atomic counter swaps exactly when the expected value matches",
     "A compare-and-swap sets value and payload only if the current value equals the expected one (a new counter is zero) and answers success with old and new value; otherwise nothing changes and the answer reports the current value. Only the replica that owns the event answers, once.",
     ["inputs", "histories"], "All counters, values and sequences of requests.",
     "The tests swap one counter twice.",
     [AC], [("swap", AC + ": on_apply_event, apply_compare_and_swap")], COUNTER, [rsm.counter_cas],
     "Every write to the counters is tabulated under both outcomes of the comparison, the answers are compared field by field, and the old value is shown to be read before it is overwritten.")
prop("C71", "Counter snapshots and configuration restore every counter",
     "A snapshot holds every counter with its value and payload, loading it stores all of them, and initialisation stores every configured initial value. Malformed input is reported.",
     ["histories", "crash_points", "configurations"], "All sets of counters.",
     "The tests use one counter.",
     [AC], [("snapshot", AC + ": on_save_snapshot, on_load_snapshot"), ("initialisation", AC + ": on_init")], COUNTER, [rsm.counter_snapshot],
     "Saved and restored fields are tabulated with their origins, with loop coverage over the counters.")
prop("C72", "Counter commands are replicated by the leader or answered with an error",
     "A request with an operation at the leader becomes one event without its context and no answer yet; any other command gets exactly one error answer with its correlation id and no event. The state changes only by applied events and in the same way on every replica.",
     ["inputs", "histories"], "All commands at all replicas.",
     "The tests send well-formed requests and one to a follower.",
     [AC], [("command gate", AC + ": on_process_command")], COUNTER, [rsm.counter_gate, rsm.counter_determinism],
     "Six cases cover all commands; every reachable outcome is compared with the expected event or error. Effect analysis of the application of events.")
prop("C80", "A decryption key is used for at most one answered decryption",
     "Applying a decryption always consumes its key, on every replica, and only the decryption that consumed it is answered with a result; later ones get an error. No decryption result leaves the actor before it was replicated.",
     ["histories", "schedules"], "All interleavings of decryption requests, events and replicas.",
     "The tests decrypt once per key.",
     [DE], [("application", DE + ": process_decrypt_event")], WILLOW, [rsm.decryptor_once],
     "Consumption is unavoidable for each applied decryption; the answer is shown unreachable when the removal found no key; all commands sent are enumerated.")
prop("C81", "Decryption requests use the stored key and malformed ones are answered",
     "A decryption request at the leader is decrypted with the state stored under its key id and replicated with that id and its result. Unknown keys and malformed requests get exactly one error and nothing is replicated.",
     ["inputs"], "All requests.", "The tests send well-formed requests and one unknown key.",
     [DE], [("request", DE + ": process_decrypt_command, decrypt")], WILLOW, [rsm.decryptor_command],
     "The five cases of a request are followed to their outcome; the replicated result is traced through the cryptographic calls to key and request.",
     assumptions=["the cryptographic library behaves as its interface says"])
prop("C82", "Generating a key keeps an existing one and evicts the oldest when full",
     "The first key generated for an id is stored and stays: later requests for it are answered with the stored public share. New keys get the next order, and only when all places are taken is the key with the lowest order removed first. The answer carries the id and the share that is stored.",
     ["histories", "schedules"], "All sequences of key generations, including concurrent ones for one id.",
     "The tests generate keys one after the other.",
     [DE], [("generation", DE + ": process_generate_key_command, process_generate_key_event")], WILLOW, [rsm.decryptor_generate],
     "Storage and eviction are tabulated with their conditions and order; the contents of answers are traced to the stored key.")
prop("C83", "Decryptor snapshots restore every key and nothing else",
     "A snapshot holds every key pair with all its parts and its order; loading it replaces the stored keys by exactly those, so that consumed keys do not come back. A malformed snapshot is reported.",
     ["histories", "crash_points"], "All sets of keys.", "The tests save and load one key.",
     [DE], [("snapshot", DE + ": on_save_snapshot, on_load_snapshot")], WILLOW, [rsm.decryptor_snapshot],
     "Saved and restored fields are tabulated with their origins, with loop coverage over the keys; the old contents are removed on every path.")
prop("C84", "Decryptor state changes only by replicated events, equally on every replica",
     "Commands at other replicas than the leader and unknown commands get one error and replicate nothing; unknown events change nothing. The keys after an event depend only on the event and the previous keys.",
     ["inputs", "histories"], "All commands and events at all replicas.", "The tests run single replicas.",
     [DE], [("gate", DE + ": on_process_command, on_apply_event")], WILLOW, [rsm.decryptor_gate, rsm.decryptor_determinism],
     "Outcome tables for the remaining commands and events; effect analysis of the sources of state changes.")
