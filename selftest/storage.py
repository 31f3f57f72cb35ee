S = "runtime/src/storage.rs"
U = "runtime/src/util.rs"
CASES = [
 ("append gap allowed", S, [("if self.last_entry_index() + 1 < first_append_index {", "if self.last_entry_index() + 2 < first_append_index {")], {"R10"}),
 ("append compacted allowed", S, [("if self.first_entry_index() > first_append_index {\n            panic!", "if self.snapshot_index() > first_append_index {\n            panic!")], {"R10"}),
 ("append no truncate", S, [("        self.entries.drain(overwritten_entries as usize..);\n", "        if overwritten_entries > 0 { self.entries.drain(overwritten_entries as usize..); }\n")], {"R10"}),
 ("append truncate one more", S, [("self.entries.drain(overwritten_entries as usize..);", "self.entries.drain(overwritten_entries as usize + 1..);")], {"R10"}),
 ("append truncate prefix", S, [("self.entries.drain(overwritten_entries as usize..);", "self.entries.drain(..overwritten_entries as usize);")], {"R10"}),
 ("append first only", S, [("self.entries.extend_from_slice(entries);", "self.entries.extend_from_slice(&entries[..1]);")], {"R10"}),
 ("append if newer term", S, [("        // Append new entries.\n        self.entries.extend_from_slice(entries);", "        if entries[0].term >= self.state.term { self.entries.extend_from_slice(entries); }")], {"R10"}),
 ("entries compacted by snapshot", S, [("if low_index < self.first_entry_index() {", "if low_index < self.snapshot_index() {")], {"R11"}),
 ("entries offset", S, [("        let hi = (high_index - offset) as usize;", "        let hi = (high_index - offset) as usize - 1;")], {"R11"}),
 ("entries no limit", S, [("        limit_size(&mut entries_slice, entries_max_size);\n", "        if entries_slice.len() > 100 { limit_size(&mut entries_slice, entries_max_size); }\n")], {"R11"}),
 ("entries high", S, [("if high_index > self.last_entry_index() + 1 {", "if high_index > self.last_entry_index() {")], {"R11"}),
 ("term of snapshot", S, [("            return Ok(self.snapshot_term());", "            return Ok(self.state.term);")], {"R11"}),
 ("term beyond", S, [("if index > self.last_entry_index() {\n            return Err(RaftError::Store(RaftStorageError::Unavailable));", "if index > self.last_entry_index() {\n            return Ok(self.state.term);")], {"R11"}),
 ("term compacted unavailable", S, [("        if index < offset {\n            return Err(RaftError::Store(RaftStorageError::Compacted));", "        if index < offset {\n            return Err(RaftError::Store(RaftStorageError::Unavailable));")], {"R11"}),
 ("last index commit", S, [("            Some(entry) => entry.index,\n            None => self.snapshot_index(),", "            Some(entry) => entry.index.min(self.state.commit),\n            None => self.snapshot_index(),")], {"R11"}),
 ("apply keeps commit", S, [("        self.state.commit = snapshot_metadata.index;\n", "")], {"R12"}),
 ("apply term back", S, [("self.state.term = cmp::max(self.state.term, snapshot_metadata.term);", "self.state.term = snapshot_metadata.term;")], {"R12"}),
 ("apply term min", S, [("cmp::max(self.state.term, snapshot_metadata.term)", "cmp::min(self.state.term, snapshot_metadata.term)")], {"R12"}),
 ("apply keeps entries", S, [("        self.entries.clear();\n        self.set_snapshot(snapshot);", "        if self.last_entry_index() <= snapshot.metadata.as_ref().unwrap().index { self.entries.clear(); }\n        self.set_snapshot(snapshot);")], {"R12"}),
 ("apply old", S, [("        if self.first_entry_index() > snapshot_metadata.index {", "        if self.first_entry_index() > snapshot_metadata.index + 1 {")], {"R12"}),
 ("apply error swallowed", S, [("        if self.first_entry_index() > snapshot_metadata.index {\n            return Err(RaftError::Store(RaftStorageError::SnapshotOutOfDate));", "        if self.first_entry_index() > snapshot_metadata.index {\n            return Ok(());")], {"R12"}),
 ("create compacts more", S, [("        self.compact_entries(applied_index)\n", "        self.compact_entries(applied_index + 1)\n")], {"R12"}),
 ("create no compact", S, [("        self.compact_entries(applied_index)\n", "        if self.entries.len() > 10 { return self.compact_entries(applied_index); }\n        Ok(())\n")], {"R12"}),
 ("create term", S, [("                self.entry_term(applied_index)?,", "                self.state.term,")], {"R12"}),
 ("create config", S, [("                self.entry_term(applied_index)?,\n                config_state,", "                self.entry_term(applied_index)?,\n                self.config_state().clone(),")], {"R12"}),
 ("create beyond", S, [("if applied_index > self.last_entry_index() {\n            panic!", "if applied_index > self.last_entry_index() + 1 {\n            panic!")], {"R12"}),
 ("requests all dropped", S, [("                statisfies_snapshot_request(snapshot_index, &config_state, *peer_id, *request_index)\n            })\n            .count();", "                snapshot_index >= *request_index\n            })\n            .count();")], {"R12", "R13"}),
 ("requests stale", S, [("        self.snapshot = snapshot;\n        let snapshot_index = self.snapshot_index();", "        let snapshot_index = self.snapshot_index();\n        self.snapshot = snapshot;")], {"R12", "R13"}),
 ("requests not removed", S, [("        self.snapshot_peer_requests\n            .extract_if(|", "        if snapshot_index > 100 { return; }\n        self.snapshot_peer_requests\n            .extract_if(|")], {"R12"}),
 ("requests inverted", S, [("            .extract_if(|peer_id, request_index| {\n                statisfies", "            .extract_if(|peer_id, request_index| {\n                !statisfies")], {"R12"}),
 ("request strict", S, [("snapshot_index >= request_index && config", "snapshot_index > request_index && config")], {"R12", "R13"}),
 ("request or", S, [("snapshot_index >= request_index && config", "snapshot_index >= request_index || config")], {"R12", "R13"}),
 ("request not stored", S, [("        self.snapshot_peer_requests.insert(peer_id, request_index);\n", "        if request_index > 0 { self.snapshot_peer_requests.insert(peer_id, request_index); }\n")], {"R13"}),
 ("request first stored", S, [("        self.snapshot_peer_requests.insert(peer_id, request_index);\n", "        self.snapshot_peer_requests.entry(peer_id).or_insert(request_index);\n")], {"R13"}),
 ("request swapped", S, [("        self.snapshot_peer_requests.insert(peer_id, request_index);\n", "        self.snapshot_peer_requests.insert(request_index, peer_id);\n")], {"R13"}),
 ("should never for requests", S, [("                statisfies_snapshot_request(applied_index, config_state, *peer_id, *request_index)\n            })\n    }", "                statisfies_snapshot_request(self.snapshot_index(), config_state, *peer_id, *request_index)\n            })\n    }")], {"R13"}),
 ("should diff", S, [("if self.snapshot_index() + self.max_snapshot_diff < applied_index {", "if self.snapshot_index() + self.max_snapshot_diff <= applied_index {")], {"R13"}),
 ("should all", S, [("            .iter()\n            .any(|(peer_id, request_index)| {", "            .iter()\n            .all(|(peer_id, request_index)| {")], {"R13"}),
 ("contains no outgoing", U, [("            .chain(&config_state.voters_outgoing)\n", "")], {"R12", "R13"}),
 ("contains learners next", U, [("            .chain(&config_state.learners)\n", "            .chain(&config_state.learners_next)\n")], {"R12", "R13"}),
 # behaviour preserved
 ("r truncate", S, [("self.entries.drain(overwritten_entries as usize..);", "self.entries.truncate(overwritten_entries as usize);")], None),
 ("r extend", S, [("self.entries.extend_from_slice(entries);", "self.entries.extend(entries.iter().cloned());")], None),
 ("r splitat", S, [("        if entries.is_empty() {\n            return Ok(());\n        }\n\n        let first_append_index = entries[0].index;\n", "        let first_append_index = match entries.first() {\n            Some(entry) => entry.index,\n            None => return Ok(()),\n        };\n")], None),
 ("r locals", S, [("        if self.first_entry_index() > first_append_index {\n            panic!", "        let first_index = self.first_entry_index();\n        let next_index = self.last_entry_index() + 1;\n        if first_append_index < first_index {\n            panic!"), ("        if self.last_entry_index() + 1 < first_append_index {", "        if first_append_index > next_index {"), ("let overwritten_entries = first_append_index - self.first_entry_index();", "let overwritten_entries = first_append_index - first_index;")], None),
 ("r map_or", S, [("        match self.entries.first() {\n            Some(entry) => entry.index,\n            None => self.snapshot_index() + 1,\n        }", "        self.entries\n            .first()\n            .map_or_else(|| self.snapshot_index() + 1, |entry| entry.index)"), ("        match self.entries.last() {\n            Some(entry) => entry.index,\n            None => self.snapshot_index(),\n        }", "        self.entries.last().map_or(self.snapshot_index(), |e| e.index)")], None),
 ("r retain", S, [("        self.snapshot_peer_requests\n            .extract_if(|peer_id, request_index| {\n                statisfies_snapshot_request(snapshot_index, &config_state, *peer_id, *request_index)\n            })\n            .count();", "        self.snapshot_peer_requests.retain(|peer_id, request_index| {\n            !statisfies_snapshot_request(snapshot_index, &config_state, *peer_id, *request_index)\n        });")], None),
 ("r contains", U, [("        config_state\n            .voters\n            .iter()\n            .chain(&config_state.learners)\n            .chain(&config_state.voters_outgoing)\n            .any(|id| *id == node_id)", "        config_state.voters.contains(&node_id)\n            || config_state.learners.contains(&node_id)\n            || config_state.voters_outgoing.contains(&node_id)")], None),
 ("r should loop", S, [("        self.snapshot_peer_requests\n            .iter()\n            .any(|(peer_id, request_index)| {\n                statisfies_snapshot_request(applied_index, config_state, *peer_id, *request_index)\n            })", "        for (peer_id, request_index) in &self.snapshot_peer_requests {\n            if statisfies_snapshot_request(applied_index, config_state, *peer_id, *request_index) {\n                return true;\n            }\n        }\n        false")], None),
 ("r satisfies if", S, [("    snapshot_index >= request_index && config_state_contains_node(snapshot_config_state, peer_id)\n", "    if request_index > snapshot_index {\n        return false;\n    }\n    config_state_contains_node(snapshot_config_state, peer_id)\n")], None),
 ("r apply order", S, [("        self.state.commit = snapshot_metadata.index;\n        self.state.term = cmp::max(self.state.term, snapshot_metadata.term);\n\n        self.entries.clear();", "        self.entries.clear();\n        self.state.term = self.state.term.max(snapshot_metadata.term);\n        self.state.commit = snapshot_metadata.index;")], None),
 ("r apply if", S, [("        self.state.term = cmp::max(self.state.term, snapshot_metadata.term);", "        if snapshot_metadata.term > self.state.term {\n            self.state.term = snapshot_metadata.term;\n        }")], None),
 ("r snapshot inline", S, [("        match self.try_satisfy_request(peer_id, request_index) {\n            Some(snapshot) => Ok(snapshot),\n            None => Err(RaftError::Store(\n                RaftStorageError::SnapshotTemporarilyUnavailable,\n            )),\n        }", "        self.try_satisfy_request(peer_id, request_index).ok_or(RaftError::Store(RaftStorageError::SnapshotTemporarilyUnavailable))")], None),
 ("r entries range", S, [("        let lo = (low_index - offset) as usize;\n        let hi = (high_index - offset) as usize;\n        let mut entries_slice = self.entries[lo..hi].to_vec();", "        let range = (low_index - offset) as usize..(high_index - offset) as usize;\n        let mut entries_slice = self.entries[range].to_vec();")], None),
 ("r term get", S, [("        Ok(self.entries[(index - offset) as usize].term)", "        let entry = &self.entries[(index - offset) as usize];\n        Ok(entry.term)")], None),
 ("r compact ", S, [("        if let Some(entry) = self.entries.first() {\n            let offset = compact_index - entry.index;\n            self.entries.drain(..offset as usize);\n        }", "        let Some(first) = self.entries.first() else {\n            return Ok(());\n        };\n        let compacted = (compact_index - first.index) as usize;\n        self.entries = self.entries.split_off(compacted);")], None),
]
