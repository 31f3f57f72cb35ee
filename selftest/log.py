L = "runtime/src/logger.rs"
STD = "            let mut entries = self.entries.lock().unwrap();\n"
CASES = [
 ("log severity shift", L, [("slog::Level::Debug => LogSeverity::Debug", "slog::Level::Debug => LogSeverity::Info")], {"R01"}),
 ("log warning", L, [("slog::Level::Warning => LogSeverity::Warning,\n        slog::Level::Info", "slog::Level::Warning | slog::Level::Info")], {"R01"}),
 ("log drop trace", L, [("            self.core.append_entry(create_log_message(record, values));\n", "            if record.level() != slog::Level::Trace { self.core.append_entry(create_log_message(record, values)); }\n")], {"R01"}),
 ("log dup", L, [("            entries.push(entry)\n", "            if entries.len() == 7 { entries.push(entry.clone()); }\n            entries.push(entry)\n")], {"R01"}),
 ("log cap", L, [("            entries.push(entry)\n", "            if entries.len() < 10000 { entries.push(entry) }\n")], {"R01"}),
 ("log trim", L, [("            entries.push(entry)\n", "            if entries.len() > 10000 { entries.remove(0); }\n            entries.push(entry)\n")], {"R01"}),
 ("log front", L, [("            entries.push(entry)\n", "            entries.insert(0, entry)\n")], {"R01"}),
 ("log dedup", L, [("            entries.push(entry)\n", "            if entries.last() != Some(&entry) { entries.push(entry) }\n")], {"R01"}),
 ("log no kv", L, [("    values.serialize(record, &mut value_serializer).unwrap();\n", "    if record.level().is_at_least(slog::Level::Warning) { values.serialize(record, &mut value_serializer).unwrap(); }\n")], {"R01"}),
 ("log no record kv", L, [("    record\n        .kv()\n        .serialize(record, &mut value_serializer)\n        .unwrap();\n", "")], {"R01"}),
 ("log fresh serializer", L, [("    values.serialize(record, &mut value_serializer).unwrap();\n", "    let mut value_serializer = ValueSerializer { output: String::new() };\n    values.serialize(record, &mut value_serializer).unwrap();\n")], {"R01"}),
 ("log no msg", L, [("        record.msg(),\n", "        record.module(),\n")], {"R01"}),
 ("log no line", L, [("        record.line(),\n", "        record.column(),\n")], {"R01"}),
 ("log file slash", L, [("&record.file()[pos + 1..]", "&record.file()[..pos]")], {"R01"}),
 ("log key missing", L, [("format!(\"{}: {}, \", key, val)", "format!(\"{}, \", val)")], {"R01"}),
 ("log value overwrites", L, [("self.output.push_str(format!(\"{}: {}, \", key, val).as_str());", "self.output = format!(\"{}: {}, \", key, val);")], {"R01"}),
 ("log value limit", L, [("        self.output.push_str(format!(\"{}: {}, \", key, val).as_str());\n", "        if self.output.len() < 64 { self.output.push_str(format!(\"{}: {}, \", key, val).as_str()); }\n")], {"R01"}),
 ("log value err", L, [("format!(\"{}: {}, \", key, val).as_str());\n", "format!(\"{}: {}, \", key, val).as_str());\n        if key.is_empty() { return Err(slog::Error::Other); }\n")], {"R01"}),
 ("take clone", L, [("            entries.drain(..).collect()", "            entries.clone()")], {"R02"}),
 ("take half", L, [("            entries.drain(..).collect()", "            let n = entries.len().min(100); entries.drain(..n).collect()")], {"R02"}),
 ("take rev", L, [("            entries.drain(..).collect()", "            entries.drain(..).rev().collect()")], {"R02"}),
 ("take first", L, [("            entries.drain(..).collect()", "            entries.drain(..).take(100).collect()")], {"R02"}),
 ("take filter", L, [("            entries.drain(..).collect()", "            entries.drain(..).filter(|e| !e.message.is_empty()).collect()")], {"R02"}),
 ("take keep last", L, [("            entries.drain(..).collect()", "            if entries.len() < 2 { return Vec::new(); }\n            entries.drain(..).collect()")], {"R02"}),
 ("take skip", L, [("            entries.drain(..).collect()", "            entries.drain(1..).collect()")], {"R02"}),
 ("take pop", L, [("            entries.drain(..).collect()", "            entries.pop().into_iter().collect()")], {"R02"}),
 ("take then clear", L, [("            entries.drain(..).collect()", "            let n = entries.len() / 2; let r = entries.split_off(n); entries.clear(); r")], {"R02"}),
 ("two cores", L, [("        let remote_drain = RemoteDrain::new(remote_drain_core.clone());", "        let remote_drain = RemoteDrain::new(RemoteDrainCore::new());")], {"R02"}),
 ("enclave take half", L, [("let mut entries = self.entries.lock();\n            entries.drain(..).collect()", "let mut entries = self.entries.lock();\n            let n = entries.len() / 2;\n            entries.drain(n..).collect()")], {"R02"}),
 ("enclave cap", L, [("let mut entries = self.entries.lock();\n            entries.push(entry)", "let mut entries = self.entries.lock();\n            if entries.len() < 9999 { entries.push(entry) }")], {"R01"}),
 ("enclave filter", L, [("Logger::root(Fuse(remote_drain), o!())", "Logger::root(Fuse(slog::LevelFilter::new(remote_drain, slog::Level::Debug)), o!())")], {"R02"}),
 # behaviour preserved
 ("r take mem", L, [("            entries.drain(..).collect()", "            core::mem::take(&mut *entries)")], None),
 ("r take replace", L, [("            entries.drain(..).collect()", "            core::mem::replace(&mut *entries, Vec::new())")], None),
 ("r take loop", L, [("            entries.drain(..).collect()", "            let mut out = Vec::with_capacity(entries.len());\n            for e in entries.drain(..) {\n                out.push(e);\n            }\n            out")], None),
 ("r take append", L, [("            entries.drain(..).collect()", "            let mut out = Vec::new();\n            out.append(&mut entries);\n            out")], None),
 ("r take splitoff", L, [("            entries.drain(..).collect()", "            entries.split_off(0)")], None),
 ("r take clone clear", L, [("            entries.drain(..).collect()", "            let out = entries.clone();\n            entries.clear();\n            out")], None),
 ("r write", L, [("self.output.push_str(format!(\"{}: {}, \", key, val).as_str());", "self.output += &format!(\"{}: {}, \", key, val);")], None),
 ("r write pieces", L, [("self.output.push_str(format!(\"{}: {}, \", key, val).as_str());", "self.output.push_str(key.as_ref());\n        self.output.push_str(\": \");\n        self.output.push_str(&format!(\"{}, \", val));")], None),
 ("r helper", L, [("fn create_log_message(record", "fn to_severity(level: slog::Level) -> LogSeverity {\n    match level {\n        slog::Level::Critical => LogSeverity::Critical,\n        slog::Level::Error => LogSeverity::Error,\n        slog::Level::Warning => LogSeverity::Warning,\n        slog::Level::Info => LogSeverity::Info,\n        slog::Level::Debug => LogSeverity::Debug,\n        slog::Level::Trace => LogSeverity::Trace,\n    }\n}\nfn file_name(file: &str) -> &str {\n    file.rsplit('/').next().unwrap_or(file)\n}\nfn create_log_message(record"),
   ("    let severity = match record.level() {\n        slog::Level::Critical => LogSeverity::Critical,\n        slog::Level::Error => LogSeverity::Error,\n        slog::Level::Warning => LogSeverity::Warning,\n        slog::Level::Info => LogSeverity::Info,\n        slog::Level::Debug => LogSeverity::Debug,\n        slog::Level::Trace => LogSeverity::Trace,\n    };\n", "    let severity = to_severity(record.level());\n")], None),
 ("r file rsplit", L, [("    let file = match record.file().rfind('/') {\n        Some(pos) => &record.file()[pos + 1..],\n        None => record.file(),\n    };\n", "    let file = record.file().rsplit('/').next().unwrap_or(record.file());\n")], None),
 ("r file map_or", L, [("    let file = match record.file().rfind('/') {\n        Some(pos) => &record.file()[pos + 1..],\n        None => record.file(),\n    };\n", "    let path = record.file();\n    let file = path.rfind('/').map_or(path, |pos| &path[pos + 1..]);\n")], None),
 ("r log order", L, [("    record\n        .kv()\n        .serialize(record, &mut value_serializer)\n        .unwrap();\n", "    let kv = record.kv();\n    kv.serialize(record, &mut value_serializer).expect(\"serializes\");\n"), ("    LogMessage {\n        severity: severity.into(),\n        message,\n    }", "    let mut log_message = LogMessage::default();\n    log_message.set_severity(severity);\n    log_message.message = message;\n    log_message")], None),
 ("r scope", L, [("            entries.push(entry)\n", "            entries.push(entry);\n            drop(entries);\n")], None),
 ("r core arg", L, [("        let remote_drain = RemoteDrain::new(remote_drain_core.clone());", "        let shared = remote_drain_core.clone();\n        let remote_drain = RemoteDrain { core: shared };")], None),
]
