F = "apps/tablet_cache/service/src/transaction/data.rs"
M = "apps/tablet_cache/service/src/transaction/metadata.rs"
DC = '''
fn cache() -> DefaultTabletDataCache<Bytes> {
    let mut c = DefaultTabletDataCache::create(7, Box::new(BytesTabletDataSerializer {}), Box::new(DefaultTabletDataCachePolicy::new()));
    c.init(create_logger(), TabletDataCacheConfig { tablet_cache_capacity: 1024 });
    c
}
fn loads(c: &mut DefaultTabletDataCache<Bytes>) -> Vec<(u64, String)> {
    c.take_out_messages().into_iter().filter_map(|o| match o { TabletDataCacheOutMessage::LoadRequest(i, r) => Some((i, r.blob_uri)), _ => None }).collect()
}
fn answer(c: &mut DefaultTabletDataCache<Bytes>, id: u64, ok: bool) {
    c.process_in_message(TabletDataCacheInMessage::LoadResponse(id, LoadTabletResponse { status: if ok { TabletDataStorageStatus::Succeeded } else { TabletDataStorageStatus::Failed }.into() }, Bytes::from("x")));
}
'''
MC = '''
fn mcache(region: u32) -> DefaultTabletMetadataCache {
    let mut c = DefaultTabletMetadataCache::create(7);
    c.init(create_logger(), TabletMetadataCacheConfig { table_configs: vec![TableMetadataCacheConfig { table_name: TABLE.into(), table_region_size: region }] });
    c
}
fn lists(c: &mut DefaultTabletMetadataCache) -> Vec<(u64, Vec<(u32, u32)>)> {
    c.make_progress(1);
    c.take_out_messages().into_iter().map(|o| match o { TabletMetadataCacheOutMessage::ListRequest(i, r) => (i, r.into_iter().map(|o| match o.op { Some(Op::ListTablet(l)) => (l.key_hash_from, l.key_hash_to), _ => panic!() }).collect()) }).collect()
}
fn listed(c: &mut DefaultTabletMetadataCache, id: u64, rs: &[(u32, u32)], ok: bool, tablets: Vec<TabletMetadata>) {
    c.process_in_message(TabletMetadataCacheInMessage::ListResponse(id, rs.iter().map(|(f, t)| TabletOpResult { table_name: TABLE.into(), status: if ok { TabletOpStatus::Succeeded } else { TabletOpStatus::Failed }.into(),
        op_result: Some(OpResult::ListTablet(ListTabletResult { key_hash_from: *f, key_hash_to: *t, tablets: if ok { tablets.clone() } else { vec![] } })) }).collect()));
}
'''
SEEDS = [
 dict(id="data-cached-member-completes", property="C11", needs="a load of three tablets of which one is cached and two are still being loaded",
  breaks="A batch takes a tablet that is being loaded by another batch as available, and reports its result early without it.",
  edits=[(F, [("let has_completed = self.remaining_cache_entries == 0;", "let has_completed = self.remaining_cache_entries == 0\n            || (self.remaining_cache_entries == 1 && tablet_cache_entry.get_metadata().tablet_version > 1);")])],
  demo=DC + '''
#[test] fn demo() {
    let mut c = cache();
    let mut h = c.load_tablets(&vec![meta(1, 2), meta(2, 2), meta(3, 2)]);
    let l = loads(&mut c); assert_eq!(l.len(), 3);
    for (i, u) in &l { if u.starts_with("1_") || u.starts_with("3_") { answer(&mut c, *i, true); c.make_progress(1); } }
    assert!(h.check_result().is_none());
    for (i, u) in &l { if u.starts_with("2_") { answer(&mut c, *i, true); c.make_progress(1); } }
    assert_eq!(h.check_result().unwrap().ok().unwrap().len(), 3);
}
'''),
 dict(id="data-failed-stays", property="C12", needs="two tablets that fail in the same step, one of which is loaded again later",
  breaks="Only one failed tablet leaves the cache per step, the others keep failing every later load without being requested again.",
  edits=[(F, [("        for failed_tablet_cache_key in failed_tablet_cache_entries {", "        for failed_tablet_cache_key in failed_tablet_cache_entries.pop() {")])],
  demo=DC + '''
#[test] fn demo() {
    let mut c = cache();
    let mut h = c.load_tablets(&vec![meta(1, 1), meta(2, 1)]);
    for (i, _) in loads(&mut c) { answer(&mut c, i, false); }
    c.make_progress(1);
    assert!(h.check_result().unwrap().is_err());
    let mut h = c.load_tablets(&vec![meta(1, 1), meta(2, 1)]);
    let l = loads(&mut c); assert_eq!(l.len(), 2);
    for (i, _) in l { answer(&mut c, i, true); }
    c.make_progress(1);
    assert_eq!(h.check_result().unwrap().ok().unwrap().len(), 2);
}
'''),
 dict(id="meta-one-waiter", property="C21", needs="two resolutions waiting for the same region when it is listed",
  breaks="Only the resolutions waiting first for a region are told when it was listed, a later one never completes.",
  edits=[(M, [("            for registered_resolve_request in registered_resolve_requests {", "            for registered_resolve_request in registered_resolve_requests.iter().take(tablet_ids.len()) {")])],
  demo=MC + '''
#[test] fn demo() {
    let mut c = mcache(u32::MAX / 8);
    let mut a = c.resolve_tablets(&vec![q(1, vec![5])]);
    let mut b = c.resolve_tablets(&vec![q(2, vec![7])]);
    for (i, rs) in lists(&mut c) { listed(&mut c, i, &rs, true, vec![meta(100, 1)]); }
    assert!(a.check_result().is_some());
    assert!(b.check_result().is_some(), "the second resolution is stuck");
}
'''),
 dict(id="meta-failed-list-not-retried", property="C22", needs="a list operation that fails while a resolution waits",
  breaks="A region whose listing failed is never listed again while resolutions wait for it.",
  edits=[(M, [("                TableRegionState::Fresh => Vec::new(),\n            },\n            false,", "                TableRegionState::Fresh => Vec::new(),\n            },\n            self.tablet_ids.is_empty(),")])],
  demo=MC + '''
#[test] fn demo() {
    let mut c = mcache(u32::MAX / 8);
    let mut a = c.resolve_tablets(&vec![q(1, vec![5])]);
    for (i, rs) in lists(&mut c) { listed(&mut c, i, &rs, false, vec![]); }
    let l = lists(&mut c); assert_eq!(l.len(), 1, "not listed again");
    for (i, rs) in l { listed(&mut c, i, &rs, true, vec![meta(100, 1)]); }
    assert!(a.check_result().is_some());
}
'''),
 dict(id="meta-late-list-downgrades", property="C23", needs="a tablet updated while a list response with its previous version is on its way",
  breaks="A list response that was overtaken by an update brings the previous version of a tablet back.",
  edits=[(M, [("if latest_tablet_metadata.tablet_version < tablet_metadata.tablet_version {", "if latest_tablet_metadata.tablet_version < tablet_metadata.tablet_version\n                    || latest_tablet_metadata.blob_size == tablet_metadata.blob_size\n                {")])],
  demo=MC + '''
#[test] fn demo() {
    let mut c = mcache(u32::MAX / 8);
    let mut a = c.resolve_tablets(&vec![q(1, vec![5])]);
    let l = lists(&mut c);
    c.update_tablet(TABLE.into(), meta(100, 2), false);
    for (i, rs) in l { listed(&mut c, i, &rs, true, vec![meta(100, 1)]); }
    assert_eq!(a.check_result().unwrap().ok().unwrap()[0].1.tablet_version, 2);
}
'''),
 dict(id="meta-split-skips-region", property="C20", needs="a query with keys more than one region apart",
  breaks="Keys that lie two or more regions after the previous key are looked up in the wrong region.",
  edits=[(M, [("            while *key_hash > region_end {", "            if *key_hash > region_end {")])],
  demo=MC + '''
#[test] fn demo() {
    let s = u32::MAX / 8;
    let mut c = mcache(s);
    let mut a = c.resolve_tablets(&vec![q(1, vec![5, 3 * s + 5])]);
    let mut froms: Vec<u32> = vec![];
    for (i, rs) in lists(&mut c) { froms.extend(rs.iter().map(|x| x.0)); }
    froms.sort();
    assert_eq!(froms, vec![0, 3 * s]);
}
'''),
]
