F = "apps/tablet_cache/service/src/transaction/coordinator.rs"
SEEDS = [
 dict(id="coord-outcome-of-last-op", property="C02", needs="a response whose failed operation is followed by a succeeded one",
  breaks="A transaction of which an earlier operation failed is reported as succeeded when the last operation succeeded.",
  edits=[(F, [("if !op_succeeded {\n                transaction_outcome = TabletTransactionOutcome::Failed;\n            }", "if op_succeeded == (transaction_outcome == TabletTransactionOutcome::Failed) {\n                transaction_outcome = if op_succeeded { TabletTransactionOutcome::Succeeded } else { TabletTransactionOutcome::Failed };\n            }")])],
  demo='''
#[test] fn demo() { assert_eq!(commit_with(|o| o.iter().enumerate().map(|(i, x)| upd(x, i == 1, None)).collect()).0, Some(TabletTransactionOutcome::Failed)); }
'''),
 dict(id="coord-correlation-reuse", property="C06", needs="a transaction whose response arrives twice while a later transaction is committing",
  breaks="A transaction reuses the number of outstanding requests as its request identifier, so a response may be applied to another transaction.",
  edits=[(F, [("self.correlation_counter += 1;\n\n        self", "self.correlation_counter = (self.correlation_counter & !0xff) + self.correlations.len() as u64 + 1;\n\n        self")])],
  demo='''
#[test] fn demo() {
    let mut m = manager(u32::MAX / 8); let mut w = World::new(vec![meta(100, 1), meta(200, 1)]);
    let seen = Seen::default();
    let mut a = m.start_transaction(); a.process(vec![q(1, vec![5])], handler(&seen, true));
    let mut b = m.start_transaction(); b.process(vec![q(2, vec![150])], handler(&seen, true));
    let mut c = m.start_transaction(); c.process(vec![q(3, vec![5])], handler(&seen, true));
    for _ in 0..8 { w.round(&mut m); }
    let mut ids = std::collections::HashSet::new();
    let mut tx = vec![a.commit(), b.commit()];
    m.make_progress(1);
    let mut msgs: Vec<_> = m.take_out_messages();
    for o in &msgs { if let OutMessage::ExecuteTabletOpsRequest(c, _, _) = o { assert!(ids.insert(*c)); } }
    // first one answered, then a third one commits
    if let OutMessage::ExecuteTabletOpsRequest(c, _, r) = &msgs[0] {
        m.process_in_message(InMessage::ExecuteTabletOpsResponse(*c, ExecuteTabletOpsResponse::default(), TabletsResponse { status: 1, tablet_results: r.tablet_ops.iter().map(|o| upd(o, true, None)).collect() }));
    }
    tx.push(c.commit());
    m.make_progress(1);
    for o in m.take_out_messages() { if let OutMessage::ExecuteTabletOpsRequest(c, _, _) = o { assert!(ids.insert(c), "request identifier {c} is used twice"); } }
}
'''),
 dict(id="coord-later-reads-unchecked", property="C05", needs="a transaction with at least two processing steps, a later one of which only reads",
  breaks="Tablets only read by a later processing step are not checked at commit, the transaction is not serializable.",
  edits=[(F, [("let mut tablet_ops = Vec::new();\n\n        for process_state in &self.process_requests {", "let mut tablet_ops: Vec<TabletOp> = Vec::new();\n\n        for process_state in &self.process_requests {"),
    ("tablet_ops.push(tablet_state.get_tablet_op());", "let first = tablet_ops.is_empty() || process_state.tablets.len() > 1;\n                if first || tablet_state.tablet.is_dirty() {\n                    tablet_ops.push(tablet_state.get_tablet_op());\n                }")])],
  demo='''
#[test] fn demo() {
    let mut m = manager(u32::MAX / 8); let mut w = World::new(vec![meta(100, 1), meta(200, 1)]);
    let mut t = m.start_transaction(); let seen = Seen::default();
    t.process(vec![q(1, vec![5])], handler(&seen, true));
    for _ in 0..8 { w.round(&mut m); }
    t.process(vec![q(2, vec![150])], handler(&seen, false));
    for _ in 0..8 { w.round(&mut m); }
    let mut c = t.commit(); for _ in 0..3 { w.round(&mut m); }
    let o = ops(&w); assert_eq!(o.len(), 1);
    assert_eq!(o[0].1.tablet_ops.len(), 2);
}
'''),
 dict(id="coord-storing-not-pending", property="C01", needs="a commit while the updates of a processing step are still being stored",
  breaks="A transaction may be committed while its updated tablets are not stored yet.",
  edits=[(F, [("self.check_transaction_pending", "self.check_transaction_pending")] if False else [("for tablet_state in process_state.tablets.values() {\n                // For each", "if let TabletProcessStatus::Failed = process_state.status { continue; }\n            for tablet_state in process_state.tablets.values() {\n                // For each"),
    ("if let TabletProcessStatus::Failed = process_state.status {\n                // Fail transaction preparation if any of the processes failed.\n                return PreparingTabletTransactionOutcome::Failed;\n            }", "if process_state.tablets.is_empty() && matches!(process_state.status, TabletProcessStatus::Failed) {\n                // Fail transaction preparation if any of the processes failed.\n                return PreparingTabletTransactionOutcome::Failed;\n            }")])],
  demo='''
#[test] fn demo() {
    let mut m = manager(u32::MAX / 8); let mut w = World::new(vec![meta(100, 1), meta(200, 1)]);
    let mut t = m.start_transaction(); let seen = Seen::default();
    w.fail_load = true;
    t.process(vec![q(1, vec![5])], handler(&seen, true));
    for _ in 0..8 { w.round(&mut m); }
    assert!(!t.has_pending_process());
    let mut c = t.commit(); for _ in 0..3 { w.round(&mut m); }
    assert_eq!(c.check_result(), Some(TabletTransactionOutcome::Failed));
    assert!(ops(&w).is_empty());
}
'''),
]
