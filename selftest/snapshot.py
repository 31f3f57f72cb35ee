S = "runtime/src/snapshot.rs"
A, B, C, D = {"R20"}, {"R21"}, {"R22"}, {"R23"}
CASES = [
 ("role term ignored", S, [("            || self.leader_term != leader_term\n", "")], A),
 ("role leave ignored", S, [("            || self.leader_term != leader_term\n            || !replicas.contains(&self.replica_id);", "            || self.leader_term != leader_term;")], A),
 ("role contains inverted", S, [("|| !replicas.contains", "|| replicas.contains")], A),
 ("role leader stored first", S, [("        let needs_reset = self.leader_id != leader_id", "        self.leader_id = leader_id;\n        let needs_reset = self.leader_id != leader_id")], A),
 ("role leader stored last", S, [("        self.leader_id = leader_id;\n        self.leader_term", "        self.leader_term"), ("        cancelled_snapshots\n    }", "        self.leader_id = leader_id;\n        cancelled_snapshots\n    }")], A),
 ("role term only newer", S, [("        self.leader_term = leader_term;\n\n", "        if leader_term > 1 { self.leader_term = leader_term; }\n\n")], A),
 ("role cancellations lost", S, [("cancelled_snapshots = self.sender.reset();", "self.sender.reset();")], A),
 ("role receiver not reset", S, [("                    self.receiver.reset();\n", "                    if self.leader_id != 0 { self.receiver.reset(); }\n")], A),
 ("role never follower", S, [("                if self.replica_id != self.leader_id {\n                    self.state = ReplicaState::Follower;", "                if self.leader_id != 0 && self.replica_id != self.leader_id {\n                    self.state = ReplicaState::Follower;")], A),
 ("role leader needs term", S, [("                if self.replica_id == self.leader_id {\n                    self.state", "                if self.replica_id == self.leader_id && needs_reset {\n                    self.state")], None),
 ("role change before reset", S, [("        // Reset sender or receiver and collect", "        if self.replica_id == self.leader_id { self.state = ReplicaState::Leader; }\n        // Reset sender or receiver and collect")], A),
 ("role wrong processor", S, [("SnapshotProcessorRole::Receiver(&mut *self.receiver)", "if instant == 0 { return SnapshotProcessorRole::Sender(&mut *self.sender); } SnapshotProcessorRole::Receiver(&mut *self.receiver)")], A),
 ("role no instant", S, [("                self.sender.set_instant(instant);\n", "")], A),
 ("role init leader", S, [("        // Always start as a follower.\n        self.state = ReplicaState::Follower;", "        self.state = if replica_id == 1 { ReplicaState::Leader } else { ReplicaState::Follower };")], A),
 ("role init no config", S, [("            .init(logger.clone(), self.replica_id, snapshot_config);", "            .init(logger.clone(), self.replica_id, &None);")], A),
 ("role init id late", S, [("        self.replica_id = replica_id;\n        self.sender\n            .init(logger.clone(), self.replica_id, snapshot_config);", "        self.sender\n            .init(logger.clone(), self.replica_id, snapshot_config);\n        self.replica_id = replica_id;")], A),
 ("role reinit", S, [("        assert_eq!(self.state, ReplicaState::Unknown);\n", "")], A),
 # refactorings
 ("role one assignment", S, [("        match self.state {\n            ReplicaState::Follower => {\n                if self.replica_id == self.leader_id {\n                    self.state = ReplicaState::Leader;\n                }\n            }\n            ReplicaState::Leader => {\n                if self.replica_id != self.leader_id {\n                    self.state = ReplicaState::Follower;\n                }\n            }\n            ReplicaState::Unknown => {\n                panic!(\"Snapshot processor is not initialized\");\n            }\n        }\n\n        cancelled", "        assert!(self.state != ReplicaState::Unknown);\n        self.state = if leader_id == self.replica_id { ReplicaState::Leader } else { ReplicaState::Follower };\n\n        cancelled")], None),
 ("role any", S, [("!replicas.contains(&self.replica_id)", "!replicas.iter().any(|r| *r == self.replica_id)")], None),
 ("role helper", S, [("        let needs_reset = self.leader_id != leader_id\n            || self.leader_term != leader_term\n            || !replicas.contains(&self.replica_id);\n", "        let same_leader = self.leader_id == leader_id && self.leader_term == leader_term;\n        let needs_reset = !(same_leader && replicas.contains(&self.replica_id));\n")], None),
 # chunks
 ("chunk count floor", S, [("(snapshot_size - 1) / chunk_size + 1", "snapshot_size / chunk_size + 1")], B | D),
 ("chunk count zero", S, [("    } else {\n        1\n    }\n}\n\nstruct SnapshotSenderState", "    } else {\n        0\n    }\n}\n\nstruct SnapshotSenderState")], B | D),
 ("start keeps", S, [("        self.receivers.insert(\n            receiver_id,\n            SnapshotSenderState::new(\n                self.logger.clone(),\n                self.next_snapshot_id,\n                snapshot,\n                self.config.chunk_size,\n            ),\n        );", "        let s = SnapshotSenderState::new(\n                self.logger.clone(),\n                self.next_snapshot_id,\n                snapshot,\n                self.config.chunk_size,\n            );\n        self.receivers.entry(receiver_id).or_insert(s);")], B),
 ("start same id", S, [("        self.next_snapshot_id += 1;\n", "        if self.receivers.len() == 1 { self.next_snapshot_id += 1; }\n")], B),
 ("start skips small", S, [("        // Note that we rely on Raft", "        if snapshot.data.is_empty() { return; }\n        // Note that we rely on Raft")], B),
 ("request slice off", S, [("            next_chunk_start + self.chunk_size as usize,\n        );", "            next_chunk_start + self.chunk_size as usize - 1,\n        );")], B),
 ("request start off", S, [("self.next_chunk_index as usize * self.chunk_size as usize;", "(self.next_chunk_index as usize + 1) * self.chunk_size as usize;")], B),
 ("request header size", S, [("snapshot_size: self.snapshot_data.len() as u64,", "snapshot_size: chunk_size as u64,")], B),
 ("request chunk index late", S, [("        let chunk_size = next_chunk.len();\n        if self.next_chunk_index == 0 {", "        let chunk_size = next_chunk.len();\n        self.next_chunk_index += 1;\n        if self.next_chunk_index == 1 {"), ("        // Advance index of the next to be sent chunk.\n        self.next_chunk_index += 1;\n", "")], B),
 ("request header always", S, [("        if self.next_chunk_index == 0 {\n            // Send header", "        if self.next_chunk_index == 0 || self.sent_chunk_count == 0 {\n            // Send header")], B),
 ("request not pending", S, [("        self.pending_chunks\n            .insert(delivery_id, self.next_chunk_index);", "        if self.next_chunk_index > 0 { self.pending_chunks\n            .insert(delivery_id, self.next_chunk_index); }")], B),
 ("request wrong pending", S, [("            .insert(delivery_id, self.next_chunk_index);", "            .insert(delivery_id, self.next_chunk_index + 1);")], B),
 ("request limit off", S, [("if pending_chunks >= self.config.max_pending_chunks ||", "if pending_chunks > self.config.max_pending_chunks ||")], B),
 ("request limit selected only", S, [("            pending_chunks += sender_state.pending_chunks();\n            if min_progress > sender_state.progress() {", "            if min_progress > sender_state.progress() {\n                pending_chunks += sender_state.pending_chunks();")], B),
 ("request limit per receiver", S, [("            pending_chunks += sender_state.pending_chunks();", "            pending_chunks = sender_state.pending_chunks();")], B),
 ("request delivery id mixed", S, [("            delivery_id: next_delivery_id,\n            payload", "            delivery_id: self.next_delivery_id,\n            payload")], B),
 ("request delivery id kept", S, [("        self.next_delivery_id += 1;\n", "        if next_delivery_id == 0 { self.next_delivery_id += 1; }\n")], B),
 ("request wrong recipient", S, [("recipient_replica_id: selected_receiver_id,\n            sender_replica_id: self.replica_id,", "recipient_replica_id: self.replica_id,\n            sender_replica_id: selected_receiver_id,")], B),
 ("request of finished", S, [("        if self.status.is_some() {\n            // The snapshot transfer has reached terminal state,\n            // no new chunks will be sent.\n            return None;\n        }\n\n        // Register", "        // Register"), ("            return 1.0;\n        }", "            return 0.5;\n        }")], B),
 ("request all sent", S, [("let mut min_progress = 1.0;", "let mut min_progress = 1.5;")], B),
 ("request sum refactor", S, [("        let mut pending_chunks = 0;\n", "        let pending_chunks: u32 = self.receivers.values().map(|s| s.pending_chunks()).sum();\n"), ("            pending_chunks += sender_state.pending_chunks();\n", "")], None),
 ("request id refactor", S, [("        let next_delivery_id = self.next_delivery_id;\n        self.next_delivery_id += 1;\n", "        self.next_delivery_id += 1;\n        let next_delivery_id = self.next_delivery_id - 1;\n")], None),
 ("request match refactor", S, [("        let next_chunk_end = cmp::min(\n            self.snapshot_data.len(),\n            next_chunk_start + self.chunk_size as usize,\n        );", "        let mut next_chunk_end = next_chunk_start + self.chunk_size as usize;\n        if next_chunk_end > self.snapshot_data.len() { next_chunk_end = self.snapshot_data.len(); }")], None),
 ("request early refactor", S, [("        let next_delivery_id = self.next_delivery_id;\n        self.next_delivery_id += 1;\n", "        let sender_id = self.replica_id;\n        let next_delivery_id = self.next_delivery_id;\n        self.next_delivery_id = next_delivery_id + 1;\n"), ("            sender_replica_id: self.replica_id,\n            delivery_id: next_delivery_id,", "            sender_replica_id: sender_id,\n            delivery_id: next_delivery_id,")], None),
 # acks
 ("ack bounds", S, [("} else if self.chunk_count <= payload.chunk_index.into()", "} else if self.chunk_count < payload.chunk_index.into()")], C),
 ("ack no delivery", S, [("                        || self.pending_chunks.remove_entry(&delivery_id)\n                            != Some((delivery_id, payload.chunk_index))\n", ""), ("                            self.sent_chunk_count += 1;\n", "                            self.pending_chunks.remove(&delivery_id); self.sent_chunk_count += 1;\n")], C),
 ("ack any status", S, [("                            == <DeliverSnapshotStatus as Into<i32>>::into(\n                                DeliverSnapshotStatus::SnapshotStatusAccepted,\n                            )", "                            != <DeliverSnapshotStatus as Into<i32>>::into(\n                                DeliverSnapshotStatus::SnapshotStatusRejected,\n                            )")], C),
 ("ack wrong snapshot counts", S, [("                        warn!(self.logger, \"Rejecting delivery response: wrong snapshot\");\n", "                        self.sent_chunk_count += 1;\n")], C),
 ("ack wrong snapshot fails", S, [("                        warn!(self.logger, \"Rejecting delivery response: wrong snapshot\");\n                        true", "                        warn!(self.logger, \"Rejecting delivery response: wrong snapshot\");\n                        false")], C),
 ("ack error ignored", S, [("                warn!(self.logger, \"Rejecting delivery response: {}\", error);\n                false", "                warn!(self.logger, \"Rejecting delivery response: {}\", error);\n                self.sent_chunk_count > 0")], C),
 ("ack undecodable ignored", S, [("                        payload_result.err().unwrap()\n                    );\n                    false", "                        payload_result.err().unwrap()\n                    );\n                    true")], C),
 ("ack failure finishes", S, [("            self.status = Some(RaftSnapshotStatus::Failure);", "            self.status = Some(RaftSnapshotStatus::Finish);")], C),
 ("complete early", S, [("self.sent_chunk_count == self.chunk_count {", "self.sent_chunk_count + self.pending_chunks.len() as u64 == self.chunk_count {")], C),
 ("complete failed", S, [("if self.status.is_none() && self.sent_chunk_count", "if self.sent_chunk_count")], C),
 ("complete kept", S, [("            self.receivers.remove(receiver_id);\n", "            if *receiver_id != 0 && self.receivers.len() > 1 { self.receivers.remove(receiver_id); }\n")], C),
 ("complete first only", S, [("                result = Some((*receiver_id, snapshot_status));\n                break;\n            }\n        }", "                result = Some((*receiver_id, snapshot_status));\n            }\n            break;\n        }")], C),
 ("complete last wins", S, [("                result = Some((*receiver_id, snapshot_status));\n                break;\n", "                result = Some((*receiver_id, snapshot_status));\n")], None),
 ("reset finish", S, [("cancellations.push((*receiver_id, RaftSnapshotStatus::Failure));", "cancellations.push((*receiver_id, RaftSnapshotStatus::Finish));")], C),
 ("reset skips", S, [("        for receiver_id in self.receivers.keys() {\n            cancell", "        for receiver_id in self.receivers.keys() {\n            if self.receivers[receiver_id].pending_chunks.is_empty() { continue; }\n            cancell")], C),
 ("reset not cleared", S, [("        self.receivers.clear();\n\n        // Note", "        // Note")], C),
 ("reset cleared first", S, [("        for receiver_id in self.receivers.keys() {\n            cancell", "        self.receivers.retain(|_, s| s.status.is_some());\n        for receiver_id in self.receivers.keys() {\n            cancell")], C),
 ("reset ids", S, [("        self.receivers.clear();\n\n", "        self.receivers.clear();\n        self.next_delivery_id = 1;\n\n")], C),
 ("unexpected accepted", S, [("            status: DeliverSnapshotStatus::SnapshotStatusRejected.into(),\n            ..Default::default()\n        };\n\n        match", "            status: DeliverSnapshotStatus::SnapshotStatusAccepted.into(),\n            ..Default::default()\n        };\n\n        match")], C),
 ("reset drain refactor", S, [("        for receiver_id in self.receivers.keys() {\n            cancellations.push((*receiver_id, RaftSnapshotStatus::Failure));\n        }\n        self.receivers.clear();", "        for (receiver_id, _) in self.receivers.drain() {\n            cancellations.push((receiver_id, RaftSnapshotStatus::Failure));\n        }")], None),
 ("reset map refactor", S, [("        let mut cancellations: Vec<(u64, RaftSnapshotStatus)> =\n            Vec::with_capacity(self.receivers.len());\n        for receiver_id in self.receivers.keys() {\n            cancellations.push((*receiver_id, RaftSnapshotStatus::Failure));\n        }\n", "        let cancellations: Vec<(u64, RaftSnapshotStatus)> = self.receivers.keys().map(|id| (*id, RaftSnapshotStatus::Failure)).collect();\n")], None),
 ("ack match refactor", S, [("                if payload_result.is_err() {\n                    warn!(\n                        self.logger,\n                        \"Rejecting delivery response: {}\",\n                        payload_result.err().unwrap()\n                    );\n                    false\n                } else {\n                    let payload = payload_result.ok().unwrap();\n", "                if let Err(e) = &payload_result {\n                    warn!(self.logger, \"Rejecting delivery response: {}\", e);\n                    false\n                } else {\n                    let payload = payload_result.unwrap();\n")], None),
 ("ack remove refactor", S, [("                        || self.pending_chunks.remove_entry(&delivery_id)\n                            != Some((delivery_id, payload.chunk_index))", "                        || self.pending_chunks.remove(&delivery_id) != Some(payload.chunk_index)")], None),
 ("complete find refactor", S, [("        for (receiver_id, sender_state) in &mut self.receivers {\n            if let Some(snapshot_status) = sender_state.try_complete() {\n                result = Some((*receiver_id, snapshot_status));\n                break;\n            }\n        }", "        for (receiver_id, sender_state) in self.receivers.iter_mut() {\n            let status = sender_state.try_complete();\n            if status.is_some() {\n                result = status.map(|s| (*receiver_id, s));\n                break;\n            }\n        }")], None),
 # receiver
 ("recv foreign sender", S, [("        if sender_id != self.sender_id || snapshot_id != self.snapshot_id {", "        if snapshot_id != self.snapshot_id {")], D),
 ("recv foreign snapshot", S, [("        if sender_id != self.sender_id || snapshot_id != self.snapshot_id {", "        if sender_id != self.sender_id {")], D),
 ("recv foreign and", S, [("        if sender_id != self.sender_id || snapshot_id != self.snapshot_id {", "        if sender_id != self.sender_id && snapshot_id != self.snapshot_id {")], D),
 ("recv index", S, [("if index >= self.chunk_count\n", "if index > self.chunk_count\n")], D),
 ("recv last size", S, [("                && chunk_size != self.snapshot_size - (self.chunk_count - 1) * self.chunk_size)", "                && chunk_size > self.snapshot_size - (self.chunk_count - 1) * self.chunk_size)")], D),
 ("recv mid size", S, [("|| (index < self.chunk_count - 1 && chunk_size != self.chunk_size)", "|| (index < self.chunk_count - 1 && chunk_size > self.chunk_size)")], D),
 ("recv not stored", S, [("        self.chunks.insert(index, chunk_contents);\n        true", "        if index > 0 { self.chunks.insert(index, chunk_contents); }\n        true")], D),
 ("recv header keeps chunks", S, [("                        self.reset();\n                        // Initiate new snapshot.", "                        if self.state.is_some() { return response; }\n                        // Initiate new snapshot.")], D),
 ("recv accepted always", S, [("                                    warn!(self.logger, \"Rejecting payload: out of bounds\");\n                                    // Respond with rejection.\n                                    response_payload.status =\n                                        DeliverSnapshotStatus::SnapshotStatusRejected.into();", "                                    warn!(self.logger, \"Rejecting payload: out of bounds\");\n                                    response_payload.status =\n                                        DeliverSnapshotStatus::SnapshotStatusAccepted.into();")], D),
 ("recv bad payload", S, [("                // Reject incoming request.\n                response_payload.status = DeliverSnapshotStatus::SnapshotStatusRejected.into();", "                response_payload.status = DeliverSnapshotStatus::SnapshotStatusCorrupted.into();")], D),
 ("recv ack index", S, [("                        response_payload.chunk_index = chunk.chunk_index;\n\n                        // Ensure the snapshot", "                        response_payload.chunk_index = 0;\n\n                        // Ensure the snapshot")], D),
 ("recv header unchecked", S, [("                        if header.chunk_contents.len() as u64 > header.snapshot_size\n                            || (header", "                        if (header")], D),
 ("recv header zero", S, [("                            || (header.chunk_contents.is_empty() && header.snapshot_size > 0) =>", "                            =>")], D),
 ("recv metadata", S, [("                            header.snapshot_metadata.clone(),", "                            Bytes::new(),")], D),
 ("recv swapped response", S, [("        let mut response = DeliverSnapshotResponse {\n            recipient_replica_id: request.sender_replica_id,\n            sender_replica_id: request.recipient_replica_id,", "        let mut response = DeliverSnapshotResponse {\n            recipient_replica_id: request.recipient_replica_id,\n            sender_replica_id: request.sender_replica_id,")], D),
 ("assemble early", S, [("if self.chunks.len() as u64 != self.chunk_count {", "if (self.chunks.len() as u64) < self.chunk_count / 2 {")], D),
 ("assemble from one", S, [("        for c in 0..self.chunk_count {", "        for c in 1..self.chunk_count {")], D),
 ("assemble any order", S, [("        for c in 0..self.chunk_count {\n            snapshot_data.put(self.chunks.remove(&c).unwrap());\n        }", "        for (_, c) in self.chunks.drain() {\n            snapshot_data.put(c);\n        }")], D),
 ("assemble not reset", S, [("        if result.is_some() {\n            self.reset()", "        if matches!(result, Some(Ok(_))) {\n            self.reset()")], D),
 ("assemble corrupted none", S, [("            return Some(Err(SnapshotError::Corrupted));", "            return None;")], D),
 ("assemble other sender", S, [("        Some(Ok((self.sender_id, snapshot)))", "        Some(Ok((self.snapshot_id as u64, snapshot)))")], D),
 ("assemble reversed", S, [("        for c in 0..self.chunk_count {", "        for c in (0..self.chunk_count).rev() {")], D),
 ("assemble ref refactor", S, [("        let result = self.state.as_mut().map(|s| s.try_complete()).flatten();", "        let result = self.state.as_mut().and_then(|s| s.try_complete());")], None),
 ("assemble match refactor", S, [("        let snapshot_metadata = RaftSnapshotMetadata::decode(self.snapshot_metadata.clone());\n        if snapshot_metadata.is_err() {\n            return Some(Err(SnapshotError::Corrupted));\n        }", "        let snapshot_metadata: Result<RaftSnapshotMetadata, SnapshotError> = match RaftSnapshotMetadata::decode(self.snapshot_metadata.clone()) {\n            Ok(m) => Ok(m),\n            Err(_) => return Some(Err(SnapshotError::Corrupted)),\n        };")], None),
 ("recv guard refactor", S, [("                                if state.accept_chunk(\n                                    request.sender_replica_id,\n                                    payload.snapshot_id,", "                                let sid = payload.snapshot_id;\n                                if state.accept_chunk(\n                                    request.sender_replica_id,\n                                    sid,")], None),
 ("recv state refactor", S, [("                        self.reset();\n                        // Initiate new snapshot.\n                        self.state = Some(ReceiverState::new(", "                        // Initiate new snapshot.\n                        self.state = Some(ReceiverState::new(")], None),
 ("recv accept refactor", S, [("        if index >= self.chunk_count\n            || (index < self.chunk_count - 1 && chunk_size != self.chunk_size)\n            || (index == self.chunk_count - 1\n                && chunk_size != self.snapshot_size - (self.chunk_count - 1) * self.chunk_size)\n        {\n            return false;\n        }", "        if index >= self.chunk_count {\n            return false;\n        }\n        let last = self.chunk_count - 1;\n        let expected = if index < last { self.chunk_size } else { self.snapshot_size - last * self.chunk_size };\n        if chunk_size != expected {\n            return false;\n        }")], None),
]
