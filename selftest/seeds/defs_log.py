L = "runtime/src/logger.rs"
SEEDS = [
 dict(id="log-take-limit", property="R02", needs="more than a thousand messages between two reads of the log",
  breaks="Taking the entries removes all messages but returns only the first thousand.",
  edits=[(L, [("            entries.drain(..).collect()", "            entries.drain(..).take(1000).collect()")])],
  demo='''
#[test] fn demo() {
    let (l, mut out) = tcp_runtime::logger::log::create_remote_logger();
    for i in 0..1500 { slog::info!(l, "m"; "i" => i); }
    assert_eq!(out.take_entries().len(), 1500);
    assert_eq!(out.take_entries().len(), 0);
}
'''),
 dict(id="log-values-after-record", property="R01", needs="a record with values of its own, logged by a logger with values",
  breaks="The values of the logger are left out of messages whose record has values.",
  edits=[(L, [("    values.serialize(record, &mut value_serializer).unwrap();", "    if value_serializer.output.is_empty() {\n        values.serialize(record, &mut value_serializer).unwrap();\n    }")])],
  demo='''
#[test] fn demo() {
    let (l, mut out) = tcp_runtime::logger::log::create_remote_logger();
    let l = l.new(slog::o!("replica" => 7));
    slog::warn!(l, "first"; "term" => 3);
    slog::warn!(l, "second");
    let e = out.take_entries();
    assert_eq!(e.len(), 2);
    assert!(e[0].message.contains("first") && e[0].message.contains("term: 3") && e[0].message.contains("replica: 7"));
    assert!(e[1].message.contains("second") && e[1].message.contains("replica: 7"));
}
'''),
 dict(id="log-repeated-record", property="R01", needs="the same record logged twice in a row",
  breaks="A message equal to the one before is not logged.",
  edits=[(L, [("            let mut entries = self.entries.lock().unwrap();\n            entries.push(entry)", "            let mut entries = self.entries.lock().unwrap();\n            if entries.last() != Some(&entry) {\n                entries.push(entry)\n            }")])],
  demo='''
#[test] fn demo() {
    let (l, mut out) = tcp_runtime::logger::log::create_remote_logger();
    for _ in 0..3 { slog::error!(l, "again"); }
    assert_eq!(out.take_entries().len(), 3);
}
'''),
]
