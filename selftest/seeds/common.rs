#![allow(dead_code, unused_imports, unused_mut, unused_variables)]
use prost::bytes::Bytes;
use tcp_runtime::logger::log::create_logger;
use tcp_tablet_cache_service::apps::tablet_cache::service::*;
use tcp_tablet_cache_service::transaction::*;
use tcp_tablet_cache_service::transaction::coordinator::*;
use tcp_tablet_cache_service::transaction::data::*;
use tcp_tablet_cache_service::transaction::manager::*;
use tcp_tablet_cache_service::transaction::metadata::*;
use tcp_tablet_store_service::apps::tablet_store::service::{
    tablet_op::Op, tablet_op_result::OpResult, CheckTabletResult, ListTabletResult, TabletMetadata, TabletOpResult,
    TabletOpStatus, TabletsResponse, UpdateTabletResult,
};
use std::cell::RefCell;
use std::rc::Rc;

const TABLE: &str = "A";
fn manager(region: u32) -> DefaultTabletTransactionManager<Bytes> {
    let mut m = DefaultTabletTransactionManager::create(
        Box::new(DefaultTabletTransactionCoordinator::create(1 << 56)),
        Box::new(DefaultTabletMetadataCache::create(3 << 56)),
        Box::new(DefaultTabletDataCache::create(2 << 56, Box::new(BytesTabletDataSerializer {}), Box::new(DefaultTabletDataCachePolicy::new()))),
    );
    m.init(create_logger(), TransactionManagerConfig {
        data_cache_config: Some(TabletDataCacheConfig { tablet_cache_capacity: 1024 }),
        metadata_cache_config: Some(TabletMetadataCacheConfig { table_configs: vec![TableMetadataCacheConfig { table_name: TABLE.into(), table_region_size: region }] }),
    });
    m
}
fn meta(id: u32, v: u32) -> TabletMetadata { TabletMetadata { tablet_id: id, tablet_version: v, blob_uri: format!("{id}_{v}"), ..Default::default() } }
// Tablet store + data storage stand-in: answers one round of messages.
struct World { tablets: Vec<TabletMetadata>, fail_load: bool, log: Vec<OutMessage> }
impl World {
    fn new(tablets: Vec<TabletMetadata>) -> Self { World { tablets, fail_load: false, log: vec![] } }
    fn list(&self, from: u32, to: u32) -> Vec<TabletMetadata> {
        let mut out: Vec<TabletMetadata> = vec![];
        let mut found = false;
        for t in &self.tablets { if t.tablet_id >= from { out.push(t.clone()); if t.tablet_id >= to { found = true; break; } } }
        if !found { if !out.iter().any(|x| x.tablet_id == self.tablets[0].tablet_id) { out.push(self.tablets[0].clone()); } }
        out
    }
    fn round(&mut self, m: &mut DefaultTabletTransactionManager<Bytes>) {
        m.make_progress(1);
        for o in m.take_out_messages() {
            self.log.push(o.clone());
            match o {
                OutMessage::LoadTabletRequest(c, _) => m.process_in_message(InMessage::LoadTabletResponse(c, LoadTabletResponse { status: if self.fail_load { TabletDataStorageStatus::Failed } else { TabletDataStorageStatus::Succeeded }.into() }, Bytes::from("x"))),
                OutMessage::StoreTabletRequest(c, _, _) => m.process_in_message(InMessage::StoreTabletResponse(c, StoreTabletResponse { status: TabletDataStorageStatus::Succeeded.into() })),
                OutMessage::ExecuteTabletOpsRequest(c, _, r) => {
                    let res = r.tablet_ops.iter().map(|op| match op.op.as_ref().unwrap() {
                        Op::ListTablet(l) => TabletOpResult { table_name: op.table_name.clone(), status: TabletOpStatus::Succeeded.into(), op_result: Some(OpResult::ListTablet(ListTabletResult { key_hash_from: l.key_hash_from, key_hash_to: l.key_hash_to, tablets: self.list(l.key_hash_from, l.key_hash_to) })) },
                        Op::CheckTablet(_) => TabletOpResult { table_name: op.table_name.clone(), status: TabletOpStatus::Succeeded.into(), op_result: Some(OpResult::CheckTablet(CheckTabletResult::default())) },
                        Op::UpdateTablet(_) => TabletOpResult { table_name: op.table_name.clone(), status: TabletOpStatus::Succeeded.into(), op_result: Some(OpResult::UpdateTablet(UpdateTabletResult::default())) },
                        _ => unreachable!(),
                    }).collect();
                    m.process_in_message(InMessage::ExecuteTabletOpsResponse(c, ExecuteTabletOpsResponse::default(), TabletsResponse { status: 1, tablet_results: res }));
                }
            }
        }
    }
}
fn q(id: u64, keys: Vec<u32>) -> TableQuery { TableQuery::create(id, TABLE.into(), keys) }
type Seen = Rc<RefCell<Vec<(TableQuery, u32, Bytes)>>>;
fn handler(seen: &Seen, write: bool) -> Box<ProcessHandler<Bytes>> {
    let s = seen.clone();
    Box::new(move |_, v| for (q, t) in v { s.borrow_mut().push((q, t.get_id(), t.get_contents().clone())); if write { t.set_contents(Bytes::from(format!("w{}", t.get_id()))); } })
}
fn ops(w: &World) -> Vec<(u64, tcp_tablet_store_service::apps::tablet_store::service::TabletsRequest)> {
    w.log.iter().filter_map(|m| match m { OutMessage::ExecuteTabletOpsRequest(c, _, r) if !matches!(r.tablet_ops.first().map(|o| o.op.as_ref().unwrap()), Some(Op::ListTablet(_))) => Some((*c, r.clone())), _ => None }).collect()
}

fn commit_with(results: impl Fn(&Vec<tcp_tablet_store_service::apps::tablet_store::service::TabletOp>) -> Vec<TabletOpResult>) -> (Option<TabletTransactionOutcome>, DefaultTabletTransactionManager<Bytes>, World) {
    let mut m = manager(u32::MAX / 8); let mut w = World::new(vec![meta(100, 1), meta(200, 1)]);
    let mut t = m.start_transaction(); let seen = Seen::default(); t.process(vec![q(1, vec![5, 150])], handler(&seen, true));
    for _ in 0..8 { w.round(&mut m); }
    assert!(!t.has_pending_process());
    let mut c = t.commit();
    m.make_progress(1);
    let mut found = false;
    for o in m.take_out_messages() { if let OutMessage::ExecuteTabletOpsRequest(c, _, r) = o { found = true;
        assert_eq!(r.tablet_ops.len(), 2);
        m.process_in_message(InMessage::ExecuteTabletOpsResponse(c, ExecuteTabletOpsResponse::default(), TabletsResponse { status: 2, tablet_results: results(&r.tablet_ops) })); } }
    assert!(found);
    let r = c.check_result(); (r, m, w)
}
fn upd(op: &tcp_tablet_store_service::apps::tablet_store::service::TabletOp, ok: bool, existing: Option<TabletMetadata>) -> TabletOpResult {
    TabletOpResult { table_name: op.table_name.clone(), status: if ok { TabletOpStatus::Succeeded } else { TabletOpStatus::Failed }.into(), op_result: Some(OpResult::UpdateTablet(UpdateTabletResult { existing_tablet: existing })) }
}
fn resolve(tablets: Vec<TabletMetadata>, region: u32, qs: Vec<TableQuery>) -> Vec<(u32, Vec<u32>)> {
    let mut m = manager(region); let mut w = World::new(tablets);
    let mut t = m.start_transaction(); let seen = Seen::default(); t.process(qs, handler(&seen, false));
    for _ in 0..8 { w.round(&mut m); }
    let mut v: Vec<(u32, Vec<u32>)> = seen.borrow().iter().map(|(q, id, _)| (*id, q.get_key_hashes().iter().cloned().collect())).collect(); v.sort(); v
}
use tcp_tablet_cache_service::store::*;
fn put(c: u64, k: &str) -> KeyValueRequest { KeyValueRequest::Put(c, PutKeyRequest { key: k.into(), value: Bytes::from("v") }) }
fn get(c: u64, k: &str) -> KeyValueRequest { KeyValueRequest::Get(c, GetKeyRequest { key: k.into() }) }
struct KV { st: SimpleKeyValueStore, m: DefaultTabletTransactionManager<Bytes>, tabs: Vec<TabletMetadata>, blobs: std::collections::HashMap<String, Bytes>, fail_ops: u32, fail_load: u32, ops: usize }
impl KV {
    fn new(res: u32, proc_: u32, tabs: Vec<TabletMetadata>) -> Self {
        let mut st = SimpleKeyValueStore::create();
        st.init(create_logger(), StoreConfig { table_name: TABLE.into(), min_pending_before_resolve: res, min_pending_before_process: proc_ });
        let blobs = tabs.iter().map(|t| (t.blob_uri.clone(), Bytes::new())).collect();
        KV { st, m: manager(u32::MAX / 8), tabs, blobs, fail_ops: 0, fail_load: 0, ops: 0 }
    }
    fn round(&mut self) -> Vec<KeyValueResponse> {
        self.m.make_progress(1); self.st.make_progress(1, &mut self.m);
        for o in self.m.take_out_messages() { match o {
            OutMessage::LoadTabletRequest(c, r) => { let f = self.fail_load > 0; if f { self.fail_load -= 1; } self.m.process_in_message(InMessage::LoadTabletResponse(c, LoadTabletResponse { status: if f { TabletDataStorageStatus::Failed } else { TabletDataStorageStatus::Succeeded }.into() }, self.blobs[&r.blob_uri].clone())) }
            OutMessage::StoreTabletRequest(c, r, b) => { self.blobs.insert(r.blob_uri, b); self.m.process_in_message(InMessage::StoreTabletResponse(c, StoreTabletResponse { status: TabletDataStorageStatus::Succeeded.into() })) }
            OutMessage::ExecuteTabletOpsRequest(c, _, r) => {
                let list = matches!(r.tablet_ops.first().map(|o| o.op.as_ref().unwrap()), Some(Op::ListTablet(_)));
                if !list { self.ops += 1; if self.fail_ops > 0 { self.fail_ops -= 1; self.m.process_in_message(InMessage::ExecuteTabletOpsError(c, ExecuteTabletOpsError::default())); continue; } }
                let w = World::new(self.tabs.clone());
                let mut res = vec![];
                for op in &r.tablet_ops { res.push(match op.op.as_ref().unwrap() {
                    Op::ListTablet(l) => TabletOpResult { table_name: op.table_name.clone(), status: TabletOpStatus::Succeeded.into(), op_result: Some(OpResult::ListTablet(ListTabletResult { key_hash_from: l.key_hash_from, key_hash_to: l.key_hash_to, tablets: w.list(l.key_hash_from, l.key_hash_to) })) },
                    Op::CheckTablet(_) => TabletOpResult { table_name: op.table_name.clone(), status: TabletOpStatus::Succeeded.into(), op_result: Some(OpResult::CheckTablet(CheckTabletResult::default())) },
                    Op::UpdateTablet(u) => { let n = u.tablet_metadata.clone().unwrap(); for t in self.tabs.iter_mut() { if t.tablet_id == n.tablet_id { assert_eq!(t.tablet_version + 1, n.tablet_version); *t = n.clone(); } } upd(op, true, None) }
                    _ => unreachable!() }); }
                self.m.process_in_message(InMessage::ExecuteTabletOpsResponse(c, ExecuteTabletOpsResponse::default(), TabletsResponse { status: 1, tablet_results: res }));
            } } }
        self.st.take_responses()
    }
    fn run(&mut self, n: usize) -> Vec<KeyValueResponse> { let mut v = vec![]; for _ in 0..n { v.extend(self.round()); } v }
}
