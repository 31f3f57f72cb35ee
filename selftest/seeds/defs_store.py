F = "apps/tablet_cache/service/src/store.rs"
M = "apps/tablet_cache/service/src/transaction/manager.rs"
R = "apps/tablet_cache/service/src/transaction/result.rs"
SEEDS = [
 dict(id="store-put-lost-after-get", property="C42", needs="a batch of requests to one tablet in which a get follows the last put",
  breaks="The tablet keeps its old contents although a put to it was answered.",
  edits=[(F, [("tablet_updated |= update && response.is_some();", "tablet_updated = update && response.is_some();")])],
  demo='''
#[test] fn demo() {
    let mut kv = KV::new(2, 1, vec![meta(1 << 30, 1)]);
    kv.st.process_request(put(1, "a")); kv.st.process_request(get(2, "b"));
    assert_eq!(kv.run(40).len(), 2);
    kv.st.process_request(get(3, "a")); kv.st.process_request(get(4, "a"));
    for r in kv.run(40) { match r { KeyValueResponse::Get(_, g) => assert!(g.existed), _ => panic!() } }
}
'''),
 dict(id="store-responses-of-failed", property="C40", needs="a transaction of which the commit fails",
  breaks="Responses of a failed transaction are sent together with those of its retry.",
  edits=[(F, [("                    failed_requests.append(&mut self.requests)\n", "                    succeeded_responses.extend(self.responses.drain(..).filter(|r| matches!(r, KeyValueResponse::Get(..))));\n                    failed_requests.extend(mem::take(&mut self.requests))\n")])],
  demo='''
#[test] fn demo() {
    let mut kv = KV::new(2, 1, vec![meta(1 << 30, 1)]); kv.fail_ops = 1;
    kv.st.process_request(put(1, "a")); kv.st.process_request(get(2, "b"));
    assert_eq!(kv.run(60).len(), 2);
}
'''),
 dict(id="store-tablet-stays-blocked", property="C41", needs="a transaction over at least two tablets that fails",
  breaks="After a failed transaction only its first tablet can take part in another transaction, requests to the others wait forever.",
  edits=[(F, [("                transaction::TabletTransactionOutcome::Failed => {\n                    failed_requests.append(&mut self.requests)\n                }", "                transaction::TabletTransactionOutcome::Failed => {\n                    failed_requests.append(&mut self.requests);\n                    self.tablet_ids.truncate(1);\n                }")])],
  demo='''
#[test] fn demo() {
    let mut kv = KV::new(20, 1, vec![meta(1 << 30, 1), meta(3 << 30, 1)]); kv.fail_ops = 1;
    for i in 0..20 { kv.st.process_request(put(i, &format!("k{i}"))); }
    kv.run(80);
    for i in 0..20 { kv.st.process_request(put(100 + i, &format!("k{i}"))); }
    kv.run(80);
    for i in 0..20 { kv.st.process_request(get(200 + i, &format!("k{i}"))); }
    kv.run(80);
    // two more rounds so that every tablet has been in a later transaction
    for i in 0..20 { kv.st.process_request(get(300 + i, &format!("k{i}"))); }
    assert_eq!(kv.run(80).len(), 20);
}
'''),
 dict(id="store-commit-while-pending", property="C40", needs="progress of the store while the processing of its transaction is pending, with an outcome that arrives before it ends",
  breaks="A transaction is committed although its processing is pending, which aborts it and retries its requests over and over.",
  edits=[(F, [("                .is_some_and(|t| !t.has_pending_process())", "                .is_some_and(|t| !t.has_pending_process() || self.tablet_ids.len() > 1)")])],
  demo='''
#[test] fn demo() {
    let mut kv = KV::new(20, 1, vec![meta(1 << 30, 1), meta(3 << 30, 1)]);
    for i in 0..20 { kv.st.process_request(put(i, &format!("k{i}"))); }
    for _ in 0..60 { kv.round(); }
    assert!(kv.ops <= 3, "{} commits", kv.ops);
    for i in 0..20 { kv.st.process_request(get(i, &format!("k{i}"))); }
    assert_eq!(kv.run(80).len(), 20);
}
'''),
 dict(id="store-key-hash-of-put-only", property="C42", needs="a get of a key that is in a different tablet than the request's own query covers",
  breaks="A get is answered from a tablet that does not own its key.",
  edits=[(F, [("        let key_hash = table_accessor.hash_key(&get_request.key);\n        if table_query.get_key_hashes().contains(&key_hash) {", "        let key_hash = table_accessor.hash_key(&get_request.key);\n        if table_query.get_key_hashes().contains(&key_hash)\n            || table_query.get_key_hashes().iter().any(|h| *h >= key_hash)\n        {")])],
  demo='''
struct Fake { q: Vec<TableQuery> , p: Rc<RefCell<Vec<(Vec<TableQuery>, Box<ProcessHandler<Bytes>>)>>> }
struct FakeTx { p: Rc<RefCell<Vec<(Vec<TableQuery>, Box<ProcessHandler<Bytes>>)>>> }
impl TabletTransaction<Bytes> for FakeTx {
    fn get_id(&self) -> u64 { 7 }
    fn process(&mut self, q: Vec<TableQuery>, h: Box<ProcessHandler<Bytes>>) { self.p.borrow_mut().push((q, h)); }
    fn has_pending_process(&self) -> bool { !self.p.borrow().is_empty() }
    fn commit(self: Box<Self>) -> Box<dyn TabletTransactionCommit> { Box::new(FakeCommit) }
    fn abort(self: Box<Self>) {}
}
struct FakeCommit;
impl TabletTransactionCommit for FakeCommit { fn check_result(&mut self) -> Option<TabletTransactionOutcome> { Some(TabletTransactionOutcome::Succeeded) } }
impl TabletTransactionContext<Bytes> for Fake {
    fn resolve(&mut self, q: Vec<TableQuery>, mut h: Box<ResolveHandler>) {
        let mut out = vec![];
        for x in q { out.push((x, TabletDescriptor::create(1, true))); }
        h(out)
    }
    fn start_transaction(&mut self) -> Box<dyn TabletTransaction<Bytes>> { Box::new(FakeTx { p: self.p.clone() }) }
}
#[test] fn demo() {
    let p = Rc::new(RefCell::new(Vec::new()));
    let mut f = Fake { q: vec![], p: p.clone() };
    let mut st = SimpleKeyValueStore::create();
    st.init(create_logger(), StoreConfig { table_name: TABLE.into(), min_pending_before_resolve: 2, min_pending_before_process: 1 });
    st.process_request(get(1, "a")); st.process_request(get(2, "b"));
    st.make_progress(1, &mut f);
    let (q, mut h) = p.borrow_mut().pop().unwrap();
    let max = *q[0].get_key_hashes().iter().max().unwrap();
    // the tablet turns out to own only one of the keys
    let part = q[0].create_from(vec![max]);
    let mut t = Tablet::create_with_contents(TabletMetadata { tablet_id: 1, ..Default::default() }, Bytes::new());
    h(7, vec![(part, &mut t)]);
    st.make_progress(1, &mut f);
    assert_eq!(st.take_responses().len(), 1);
}
'''),
 dict(id="mgr-failed-list-first", property="C31", needs="a list request for two regions that ends in an error",
  breaks="Only the failure of the first listed region is reported, the other regions are never listed again.",
  edits=[(M, [("list_ops\n                            .iter()\n                            .map(|tablet_op| create_failed_op_result(tablet_op))\n", "list_ops\n                            .first()\n                            .map(|tablet_op| create_failed_op_result(tablet_op))\n                            .into_iter()\n")])],
  demo='''
#[test] fn demo() {
    let mut m = manager(u32::MAX / 8); let mut w = World::new(vec![meta(100, 1), meta(200, 1)]);
    let mut t = m.start_transaction(); let seen = Seen::default(); t.process(vec![q(1, vec![5, u32::MAX - 5])], handler(&seen, true));
    let mut failed = 0;
    for _ in 0..4 {
        m.make_progress(1);
        for o in m.take_out_messages() { if let OutMessage::ExecuteTabletOpsRequest(c, _, _) = o { failed += 1; m.process_in_message(InMessage::ExecuteTabletOpsError(c, ExecuteTabletOpsError::default())); } }
    }
    for _ in 0..8 { w.round(&mut m); }
    assert!(!t.has_pending_process());
}
'''),
 dict(id="mgr-error-list-and-ops", property="C30", needs="a response that carries list results together with results of other operations",
  breaks="Results of other operations that arrive with a list result are dropped, the transaction never ends.",
  edits=[(M, [("        if !execute_op_results.is_empty() {", "        if !execute_op_results.is_empty() && execute_op_results.len() < 64 {")])],
  demo='''
#[test] fn demo() {
    let tabs: Vec<_> = (1..=80u32).map(|i| meta(i * 100, 1)).collect();
    let mut m = manager(u32::MAX / 8); let mut w = World::new(tabs);
    let mut t = m.start_transaction(); let seen = Seen::default(); t.process(vec![q(1, (1..=80u32).map(|i| i * 100 - 1).collect())], handler(&seen, true));
    for _ in 0..8 { w.round(&mut m); }
    assert!(!t.has_pending_process());
    let mut c = t.commit(); for _ in 0..4 { w.round(&mut m); }
    assert_eq!(c.check_result(), Some(TabletTransactionOutcome::Succeeded));
}
'''),
 dict(id="result-handle-reset", property="C33", needs="a source whose error is set after a value",
  breaks="An outcome that was already reported is replaced.",
  edits=[(R, [("        assert!(core.error.is_none() && core.result.is_none());\n        core.error = Some(error);", "        assert!(core.error.is_none());\n        core.result = None;\n        core.error = Some(error);")])],
  demo='''
#[test] fn demo() {
    use tcp_tablet_cache_service::transaction::result::*;
    let (h, mut s) = create_eventual_result::<u32, u32>();
    assert!(h.check_result().is_none());
    s.set_result(1);
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.set_error(2)));
    assert!(matches!(h.check_result(), Some(Ok(1))));
}
'''),
]
