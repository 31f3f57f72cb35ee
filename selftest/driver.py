D, C = "runtime/src/driver.rs", "runtime/src/consensus.rs"
G, A, P, M, S, T, I, R, X, N = ({f"R4{i}"} for i in range(10))
CASES = [
 # gate
 ("gate change cluster stopped", D, [("    ) -> Result<(), PalError> {\n        self.check_driver_started()?;\n        self.check_non_ephemeral()?;\n\n        let change_status", "    ) -> Result<(), PalError> {\n        self.check_non_ephemeral()?;\n\n        let change_status")], G),
 ("gate system ephemeral", D, [("        self.check_driver_started()?;\n        self.check_non_ephemeral()?;\n\n        let message =", "        self.check_driver_started()?;\n\n        let message =")], G),
 ("gate restart", D, [("        self.check_driver_state(DriverState::Created)?;\n\n        self.initialize_driver", "        if self.driver_state == DriverState::Started {\n            return Err(PalError::InvalidOperation);\n        }\n\n        self.initialize_driver")], G),
 ("gate restart late", D, [("        self.check_driver_state(DriverState::Created)?;\n\n        self.initialize_driver(app_signing_key, start_replica_request.replica_id_hint);\n", "        self.initialize_driver(app_signing_key, start_replica_request.replica_id_hint);\n\n        self.check_driver_state(DriverState::Created)?;\n")], G),
 ("gate stopped actor", D, [("        if self.driver_state == DriverState::Started {\n            self.process_deliver", "        if self.driver_state != DriverState::Created {\n            self.process_deliver"), ("        self.check_driver_started()?;\n\n        let message_outcome", "        let message_outcome")], G),
 ("gate ephemeral raft", D, [("        if !self.is_ephemeral {\n            // Processes outputs", "        {\n            // Processes outputs")], G | P | S),
 ("gate stop ignored", D, [("        self.driver_state = DriverState::Stopped;\n", "")], G),
 ("gate ephemeral lost", D, [("        self.is_ephemeral = start_replica_request.is_ephemeral;", "        self.is_ephemeral = start_replica_request.is_ephemeral && !start_replica_request.is_leader;")], G),
 ("gate lameduck toggles", D, [("self.lameduck_mode = true;", "self.lameduck_mode = !self.lameduck_mode;")], G),
 ("gate replica state before start", D, [("        self.check_driver_started()?;\n\n        if self.is_ephemeral {\n            self.stash", "        if self.is_ephemeral {\n            self.stash")], G),
 ("gate snapshot failure before start", D, [("    ) -> Result<(), PalError> {\n        self.check_driver_started()?;\n        self.check_non_ephemeral()?;\n        match self.snapshot.mut", "    ) -> Result<(), PalError> {\n        self.check_non_ephemeral()?;\n        match self.snapshot.mut")], G),
 # commit
 ("commit unsorted", D, [("        committed_entries.sort_by(|a, b| a.index.cmp(&b.index));\n", "        committed_entries.reverse();\n")], A),
 ("commit not sorted", D, [("        mut committed_entries: Vec<RaftEntry>,", "        committed_entries: Vec<RaftEntry>,"), ("        committed_entries.sort_by(|a, b| a.index.cmp(&b.index));\n", "")], A),
 ("commit sorted down", D, [("a.index.cmp(&b.index)", "b.index.cmp(&a.index)")], A),
 ("commit sorted by term", D, [("a.index.cmp(&b.index)", "a.term.cmp(&b.term)")], A),
 ("commit index late", D, [("            self.raft_progress.applied_index = committed_entry.index;\n\n            if committed_entry.data.is_empty() {\n", "            if committed_entry.data.is_empty() {\n"), ("                debug!(\n                    self.logger,\n                    \"Applying Raft entry #{}\", committed_entry.index\n                );\n", "                self.raft_progress.applied_index = committed_entry.index;\n")], A),
 ("commit conf change skipped", D, [("                        self.collect_config_state(config_state);\n                    }\n", "                        if !config_state.voters.is_empty() {\n                            self.collect_config_state(config_state);\n                        }\n                    }\n")], A),
 ("commit conf error ignored", D, [("                        error!(self.logger, \"Failed to apply Raft config change: {}\", e);\n                        // Failure to apply Raft config change must lead to termination.\n                        return Err(PalError::Raft);", "                        error!(self.logger, \"Failed to apply Raft config change: {}\", e);\n                        continue;")], A),
 ("commit owned always", D, [("owned: entry_id.replica_id == self.id,", "owned: entry_id.replica_id == self.id || self.raft.leader(),")], A),
 ("commit index wrong", D, [("                            index: committed_entry.index,\n                            owned: entry", "                            index: committed_entry.term,\n                            owned: entry")], A),
 ("commit correlation", D, [("ActorEvent::with_bytes(entry_id.entry_id, entry.entry_contents)", "ActorEvent::with_bytes(entry_id.replica_id, entry.entry_contents)")], A),
 ("commit stops", D, [("                // from the previous terms.\n                continue;", "                // from the previous terms.\n                break;")], A),
 ("commit damaged skipped", D, [("                let entry = Entry::decode(committed_entry.get_data()).map_err(|e| {\n                    error!(self.logger, \"Failed to deserialize Raft entry: {}\", e);\n                    // Failure to deserialize Raft config change must lead to termination.\n                    return PalError::Raft;\n                })?;\n", "                let Ok(entry) = Entry::decode(committed_entry.get_data()) else {\n                    error!(self.logger, \"Failed to deserialize Raft entry\");\n                    continue;\n                };\n")], A),
 ("commit commands of leader only", D, [("                for actor_command in event_outcome.commands {\n                    self.stash_message(out_message::Msg::DeliverAppMessage(DeliverAppMessage {\n                        correlation_id: actor_command.correlation_id,\n                        message_header: actor_command.header,\n                        message_payload: actor_command.payload,\n                    }));\n                }\n            }\n        }\n\n        Ok(())\n    }\n\n    fn send_raft", "                for actor_command in event_outcome.commands {\n                    if self.raft_state.leader_replica_id != self.id { break; }\n                    self.stash_message(out_message::Msg::DeliverAppMessage(DeliverAppMessage {\n                        correlation_id: actor_command.correlation_id,\n                        message_header: actor_command.header,\n                        message_payload: actor_command.payload,\n                    }));\n                }\n            }\n        }\n\n        Ok(())\n    }\n\n    fn send_raft")], A),
 ("commit light dropped", D, [("        self.apply_raft_committed_entries(light_raft_ready.take_committed_entries())?;\n", "        if self.raft.leader() {\n            self.apply_raft_committed_entries(light_raft_ready.take_committed_entries())?;\n        }\n")], A | P),
 ("commit snapshot config lost", D, [("        self.collect_config_state(get_config_state(raft_snapshot).clone());\n", "")], A),
 ("commit snapshot index lost", D, [("        self.raft_progress.applied_index = get_metadata(raft_snapshot).index;\n", "        self.raft_progress.applied_index = self.raft_progress.applied_index.max(get_metadata(raft_snapshot).term);\n")], A),
 # persist
 ("persist advance first", D, [("        let entries = raft_ready.take_entries();\n", "        let entries = raft_ready.take_entries();\n        let mut light_raft_ready = self.raft.advance_ready(raft_ready);\n"), ("        // Advance Raft state after fully processing ready.\n        let mut light_raft_ready = self.raft.advance_ready(raft_ready);\n", "")], P),
 ("persist hard state leader", D, [("        if let Some(raft_hard_state) = raft_ready.hard_state() {\n", "        if let Some(raft_hard_state) = raft_ready.hard_state().filter(|h| h.commit > 0) {\n")], P),
 ("persist append ignored", D, [("                // Failure to append Raft entries to storage snapshot must lead to termination.\n                return Err(PalError::Actor);\n", "")], P),
 ("persist snapshot error ignored", D, [("            // Failure to apply Raft snapshot to storage snapshot must lead to termination.\n            return Err(PalError::Raft);\n        }\n\n        // Pass", "            return Ok(());\n        }\n\n        // Pass")], P),
 ("persist load ignored", D, [("        self.actor.on_load_snapshot(snapshot).map_err(|e| {\n            error!(self.logger, \"Failed to load actor state snapshot: {}\", e);\n            // Failure to load actor snapshot must lead to termination.\n            PalError::Actor\n        })?;\n", "        if let Err(e) = self.actor.on_load_snapshot(snapshot) {\n            error!(self.logger, \"Failed to load actor state snapshot: {}\", e);\n        }\n")], P),
 ("persist snapshot after entries", D, [("        let mut snapshot = raft_ready.take_snapshot();\n        self.restore_raft_snapshot(&mut snapshot)?;\n", "        let mut snapshot = raft_ready.take_snapshot();\n"), ("        self.apply_raft_committed_entries(raft_ready.take_committed_entries())?;\n", "        self.apply_raft_committed_entries(raft_ready.take_committed_entries())?;\n        self.restore_raft_snapshot(&mut snapshot)?;\n")], P),
 ("persist ack first", D, [("        self.apply_raft_committed_entries(light_raft_ready.take_committed_entries())?;\n        // Advance the apply index.\n        self.raft.advance_apply();\n", "        self.raft.advance_apply();\n        self.apply_raft_committed_entries(light_raft_ready.take_committed_entries())?;\n")], P),
 ("persist no ack", D, [("        self.raft.advance_apply();\n", "        if self.raft.leader() { self.raft.advance_apply(); }\n")], P),
 ("persist sends early", D, [("        if self.driver_state == DriverState::Started {\n            self.process_deliver", "        if self.messages.len() > 100 { host.send_messages(self.take_out_messages()); }\n        if self.driver_state == DriverState::Started {\n            self.process_deliver")], P),
 ("persist messages lost", D, [("        self.messages.push(OutMessage { msg: Some(message) });", "        if self.messages.len() > 1000 { self.messages.clear(); }\n        self.messages.push(OutMessage { msg: Some(message) });")], P),
 ("persist log late", D, [("        self.stash_log_entries();\n        self.stash_comms_module_entries();\n\n        // Send messages to Raft peers and consumers through the trusted host.\n        host.send_messages(self.take_out_messages());\n", "        self.stash_comms_module_entries();\n\n        host.send_messages(self.take_out_messages());\n        self.stash_log_entries();\n")], P),
 ("persist order reversed", D, [("        // Take messages to be sent out.\n        mem::take(&mut self.messages)", "        let mut messages = mem::take(&mut self.messages);\n        messages.dedup();\n        messages")], P),
 # relay
 ("relay persisted lost", D, [("        self.send_raft_messages(raft_ready.take_persisted_messages())?;\n", "        if self.raft_state.leader_replica_id != self.id {\n            self.send_raft_messages(raft_ready.take_persisted_messages())?;\n        }\n")], M),
 ("relay light lost", D, [("        self.send_raft_messages(light_raft_ready.take_messages())?;\n", "        light_raft_ready.take_messages();\n")], M),
 ("relay recipient", D, [("                        recipient_replica_id: raft_message.to,\n", "                        recipient_replica_id: raft_message.from,\n")], M),
 ("relay sender", D, [("                        sender_replica_id: self.id,\n                        payload", "                        sender_replica_id: raft_message.to,\n                        payload")], M),
 ("relay kind", D, [("                    raft_message.msg_type(),\n", "                    RaftMessageType::MsgHeartbeat,\n")], M),
 ("relay snapshot direct", D, [("                self.stash_snapshot(raft_message);\n                continue;\n", "                self.stash_snapshot(raft_message.clone());\n")], M),
 ("relay stops at snapshot", D, [("                self.stash_snapshot(raft_message);\n                continue;\n", "                self.stash_snapshot(raft_message);\n                break;\n")], M),
 ("relay to self skipped", D, [("        for raft_message in raft_messages {\n", "        for raft_message in raft_messages {\n            if raft_message.to > 100 { continue; }\n")], M),
 ("relay comms only leader", D, [("        self.stash_log_entries();\n        self.stash_comms_module_entries();\n", "        self.stash_log_entries();\n        if self.driver_state == DriverState::Started && !self.lameduck_mode { self.stash_comms_module_entries(); }\n")], M),
 ("relay comms early", D, [("            // Initiate if needed snapshot sending.\n            self.process_snapshot_sending()?;\n        }\n\n        self.stash_log_entries();\n        self.stash_comms_module_entries();\n", "            self.stash_comms_module_entries();\n            self.process_snapshot_sending()?;\n        } else {\n            self.stash_comms_module_entries();\n        }\n\n        self.stash_log_entries();\n")], M),
 # actor
 ("actor no progress", D, [("        if self.driver_state == DriverState::Started {\n            self.process_deliver", "        if self.driver_state == DriverState::Started && (deliver_app_message_opt.is_some() || self.core.borrow().leader()) {\n            self.process_deliver")], set() | {"R4A"}),
 ("actor header", D, [("                header: m.message_header,\n", "                header: m.message_payload.clone(),\n")], {"R4A"}),
 ("actor error ignored", D, [("                error!(self.logger, \"Failed to process actor command: {}\", e);\n\n                // Failure to process actor command must lead to termination.\n                PalError::Actor\n            })?;\n", "                error!(self.logger, \"Failed to process actor command: {}\", e);\n                PalError::Actor\n            });\n        let Ok(message_outcome) = message_outcome else { return Ok(()) };\n")], {"R4A"}),
 ("actor replicated applied", D, [("            if self.is_ephemeral {\n                // For ephemeral", "            if self.is_ephemeral || actor_event.contents.is_empty() {\n                // For ephemeral")], {"R4A", "R41"}),
 ("actor entry of other", D, [("                        replica_id: self.id,\n                    },\n                    actor_event.contents", "                        replica_id: self.raft_state.leader_replica_id,\n                    },\n                    actor_event.contents")], {"R4A"}),
 ("actor proposals replaced", D, [("        self.proposals.push(proposal);", "        self.proposals.clear();\n        self.proposals.push(proposal);")], {"R4A"}),
 ("actor one proposal", D, [("            self.make_raft_proposal(proposal)?;\n", "            self.make_raft_proposal(proposal)?;\n            break;\n")], {"R4A"}),
 ("actor proposal panics", D, [("            Err(RaftError::ProposalDropped) => {\n                // The replica may have lost leadership after the actor has produced the proposal.\n                warn!(self.logger, \"Dropping Raft proposal\");\n\n                Ok(())\n", "            Err(RaftError::ProposalDropped) => {\n                panic!(\"dropped\");\n")], {"R4A"}),
 ("actor proposal error ignored", D, [("    fn make_raft_proposal(&mut self, proposal_contents: Bytes) -> Result<(), PalError> {\n        debug!(self.logger, \"Making Raft proposal\");\n", "    fn make_raft_proposal(&mut self, proposal_contents: Bytes) -> Result<(), PalError> {\n        if !self.raft.leader() { return Ok(()); }\n")], {"R4A"}),
 ("actor commands lost", D, [("        for actor_message in message_outcome.commands {\n", "        for actor_message in message_outcome.commands {\n            if actor_message.payload.is_empty() { continue; }\n")], {"R4A"}),
 ("actor tick skipped", D, [("            self.communication.make_tick();\n", "            if !self.is_ephemeral && self.raft.leader() { self.communication.make_tick(); }\n")], {"R4A"}),
 # snapshots
 ("snap create always", D, [("        if !self.raft.mut_store().should_snapshot(\n            self.raft_progress.applied_index,\n            &self.raft_progress.config_state,\n        ) {\n            return Ok(());\n        }\n", "        self.raft.mut_store().should_snapshot(\n            self.raft_progress.applied_index,\n            &self.raft_progress.config_state,\n        );\n")], S),
 ("snap early", D, [("            // Advance Raft internal state.\n            self.advance_raft()?;\n\n            // Maybe create a snashot of the actor to reduce the size of the log.\n            self.maybe_create_raft_snapshot()?;\n", "            self.maybe_create_raft_snapshot()?;\n            self.advance_raft()?;\n")], S),
 ("snap index stale", D, [("        let applied_index = self.raft_progress.applied_index;\n", "        let applied_index = self.raft_progress.applied_index - 1;\n")], S),
 ("snap error ignored", D, [("            self.maybe_create_raft_snapshot()?;\n", "            let _ = self.maybe_create_raft_snapshot();\n")], S),
 ("snap report lost", D, [("                    self.raft.report_snapshot(replica_id, snapshot_status);\n                }\n            }\n            SnapshotProcessorRole::Receiver(receiver)", "                    if snapshot_status == RaftSnapshotStatus::Finish {\n                        self.raft.report_snapshot(replica_id, snapshot_status);\n                    }\n                }\n            }\n            SnapshotProcessorRole::Receiver(receiver)")], S),
 ("snap cancelled lost", D, [("        for (replica_id, snapshot_status) in snapshot_updates {\n            self.raft.report_snapshot(replica_id, snapshot_status);\n        }\n", "        if let Some((replica_id, snapshot_status)) = snapshot_updates.into_iter().next() {\n            self.raft.report_snapshot(replica_id, snapshot_status);\n        }\n")], S),
 ("snap cancelled finished", D, [("        for (replica_id, snapshot_status) in snapshot_updates {\n            self.raft.report_snapshot(replica_id, snapshot_status);", "        for (replica_id, _snapshot_status) in snapshot_updates {\n            self.raft.report_snapshot(replica_id, RaftSnapshotStatus::Finish);")], S),
 ("snap install sender", D, [("                                sender_replica_id,\n                                self.id,\n                                RaftMessageType::MsgSnapshot,", "                                self.id,\n                                sender_replica_id,\n                                RaftMessageType::MsgSnapshot,")], S),
 ("snap install empty", D, [("                            snapshot_message.set_snapshot(snapshot);\n", "                            if !snapshot.data.is_empty() { snapshot_message.set_snapshot(snapshot); }\n")], S),
 ("snap refused finish", D, [("RaftSnapshotStatus::Failure);\n                    }\n                }\n            }\n        }\n\n        for out_message", "RaftSnapshotStatus::Finish);\n                    }\n                }\n            }\n        }\n\n        for out_message")], S),
 ("snap refused silent", D, [("                    for snapshot_message in snapshot_messages {\n                        self.raft\n                            .report_snapshot(snapshot_message.to, RaftSnapshotStatus::Failure);\n                    }\n", "")], S),
 ("snap start to sender", D, [("sender.start(snapshot_message.to, snapshot_message.snapshot.unwrap());", "sender.start(snapshot_message.from, snapshot_message.snapshot.unwrap());")], S),
 ("snap one chunk", D, [("                while let Some(request) = sender.next_request() {\n", "                if let Some(request) = sender.next_request() {\n")], S),
 ("snap chunk dropped", D, [("        for out_message in out_messages {\n            self.communication", "        for out_message in out_messages.into_iter().take(16) {\n            self.communication")], S),
 ("snap progress stuck", D, [("                if let Some((replica_id, snapshot_status)) = sender.try_complete() {\n", "                if let Some((replica_id, snapshot_status)) = (if self.lameduck_mode { None } else { sender.try_complete() }) {\n")], S),
 ("snap pending dropped", D, [("        let snapshot_messages = mem::take(&mut self.snapshots);\n", "        let mut snapshot_messages = mem::take(&mut self.snapshots);\n        snapshot_messages.truncate(1);\n")], S),
 # messages of peers
 ("step any sender", D, [("                if message.get_from() != sender_replica_id {\n", "                if message.get_from() != sender_replica_id && message.get_from() == 0 {\n")], T),
 ("step any recipient", D, [("                if self.id != recipient_replica_id {\n", "                if self.id != recipient_replica_id && recipient_replica_id == 0 {\n")], T),
 ("step recipient sender", D, [("                m.sender_replica_id,\n                m.recipient_replica_id,\n                m.payload", "                m.recipient_replica_id,\n                m.recipient_replica_id,\n                m.payload")], T),
 ("step bypass", D, [("                .process_in_message(in_message::Msg::DeliverSystemMessage(\n                    deliver_system_message,\n                ))?;\n\n        if message.is_none() {\n            return Ok(());\n        }\n\n        let message = message.unwrap();", "                .process_in_message(in_message::Msg::DeliverSystemMessage(\n                    deliver_system_message.clone(),\n                ))?;\n\n        let message = message.unwrap_or(in_message::Msg::DeliverSystemMessage(deliver_system_message));")], T),
 ("step error ignored", D, [("                        // Unrecoverable Raft errors must lead to termination.\n                        Err(PalError::Raft)\n                    }\n                    Ok(_) => Ok(()),\n                }\n            }", "                        Ok(())\n                    }\n                    Ok(_) => Ok(()),\n                }\n            }")], T),
 ("step removed peer fatal", D, [("Err(e @ (RaftError::StepPeerNotFound | RaftError::ProposalDropped))", "Err(e @ RaftError::ProposalDropped)")], T),
 ("step damaged fatal", D, [("                    \"Ignoring failed to deserialize Raft message: {}\", e\n                );\n\n                Ok(())", "                    \"Ignoring failed to deserialize Raft message: {}\", e\n                );\n\n                Err(PalError::Raft)")], T),
 ("step chunk unanswered", D, [("                self.communication\n                    .process_out_message(OutgoingMessage::DeliverSnapshotResponse(\n                        deliver_snapshot_response,\n                    ))\n", "                if deliver_snapshot_response.recipient_replica_id == self.raft_state.leader_replica_id {\n                    return Ok(());\n                }\n                self.communication\n                    .process_out_message(OutgoingMessage::DeliverSnapshotResponse(\n                        deliver_snapshot_response,\n                    ))\n")], T),
 ("step response other delivery", D, [("sender.process_response(m.sender_replica_id, m.delivery_id, Ok(m))", "sender.process_response(m.recipient_replica_id, m.delivery_id, Ok(m))")], T),
 ("step failure ok", D, [("                deliver_snapshot_failure.sender_replica_id,\n                deliver_snapshot_failure.delivery_id,\n", "                deliver_snapshot_failure.delivery_id,\n                deliver_snapshot_failure.sender_replica_id,\n")], T),
 ("step handshake dropped", D, [("        self.communication\n            .process_in_message(in_message::Msg::SecureChannelHandshake(\n                secure_channel_handshake,\n            ))?;\n", "        if !self.lameduck_mode {\n        self.communication\n            .process_in_message(in_message::Msg::SecureChannelHandshake(\n                secure_channel_handshake,\n            ))?;\n        }\n")], T),
 # time
 ("time back", D, [("        self.instant = cmp::max(self.instant, instant);\n", "        self.instant = instant;\n")], I),
 ("time min", D, [("        self.instant = cmp::max(self.instant, instant);\n", "        self.instant = cmp::max(self.tick_instant, instant);\n")], I),
 ("time raw for actor", D, [("        let instant = self.instant;\n        let leader", "        let leader")], I),
 ("time clock unset", D, [("        self.default_clock.set_instant(instant as i64);\n", "")], I),
 ("time leader stale", D, [("        let leader = self.check_raft_leadership();\n", "        let leader = self.raft_state.leader_replica_id == self.id;\n")], I),
 ("time tick lameduck", D, [("        if !self.lameduck_mode {\n            self.trigger_raft_tick();\n        }\n", "        if !self.lameduck_mode || self.raft.leader() {\n            self.trigger_raft_tick();\n        }\n")], I),
 ("time tick early", D, [("        if self.instant - self.tick_instant >= self.driver_config.tick_period {", "        if self.instant - self.tick_instant > self.driver_config.tick_period {")], I),
 ("time tick not kept", D, [("            self.tick_instant = self.instant;\n            // invoke", "            self.tick_instant += 1;\n            // invoke")], I),
 ("time tick twice", D, [("            self.raft.make_tick();\n        }", "            self.raft.make_tick();\n            if self.raft.leader() { self.raft.make_tick(); }\n        }")], I),
 ("time tick late", D, [("        if !self.lameduck_mode {\n            self.trigger_raft_tick();\n        }\n\n        if !self.raft.has_ready() {\n            // There is nothing process.\n            return Ok(());\n        }\n", "        let has_ready = self.raft.has_ready();\n        if !self.lameduck_mode {\n            self.trigger_raft_tick();\n        }\n\n        if !has_ready {\n            return Ok(());\n        }\n")], I),
 ("time lameduck moves tick", D, [("        if !self.lameduck_mode {\n            self.trigger_raft_tick();\n        }\n", "        if !self.lameduck_mode {\n            self.trigger_raft_tick();\n        } else { self.tick_instant = self.instant; }\n")], I),
 ("time period default", D, [("            self.driver_config.tick_period = raft_config.tick_period;\n", "            self.driver_config.tick_period = raft_config.tick_period.max(100);\n")], I),
 # reports
 ("report config of follower", D, [("        if raft_state.leader_replica_id == self.id {\n", "        if raft_state.leader_replica_id != 0 {\n")], R),
 ("report only on request", D, [("        if !raft_state_changed && !cluster_check_requested {\n            return;\n        }\n", "        if !cluster_check_requested {\n            return;\n        }\n")], R),
 ("report no request", D, [("        if !raft_state_changed && !cluster_check_requested {\n", "        if !raft_state_changed {\n")], R),
 ("report old", D, [("        self.raft_state = self.get_raft_state();\n\n        // An", "        let new_state = self.get_raft_state();\n\n        // An"), ("        let raft_state_changed = self.prev_raft_state != self.raft_state;", "        let raft_state_changed = self.raft_state != new_state;"), ("            has_pending_changes: self.raft_state.has_pending_change,\n        }));\n", "            has_pending_changes: self.raft_state.has_pending_change,\n        }));\n        self.raft_state = new_state;\n")], R),
 ("report terms swapped", D, [("            leader_term: self.raft_state.leader_term,\n", "            leader_term: self.prev_raft_state.leader_term,\n")], R),
 ("report request sticks", D, [("mem::take(&mut self.cluster_check_requested)", "self.cluster_check_requested")], R),
 ("report channels not told", D, [("            self.communication\n                .process_cluster_change(&self.raft_progress.config_state.voters);\n", "            if self.raft_state.leader_replica_id == self.id {\n            self.communication\n                .process_cluster_change(&self.raft_progress.config_state.voters);\n            }\n")], R),
 ("report channels told leader view", D, [("process_cluster_change(&self.raft_progress.config_state.voters)", "process_cluster_change(&self.raft_state.committed_cluster_config)")], R),
 ("report transfers not told", D, [("            self.update_snapshot_cluster_change();\n", "            if self.raft_state.has_pending_change { self.update_snapshot_cluster_change(); }\n")], R),
 ("report change as remove", D, [("                change_cluster_request.replica_id,\n                RaftConfigChangeType::AddNode,", "                change_cluster_request.replica_id,\n                RaftConfigChangeType::AddLearnerNode,")], R),
 ("report unknown pending", D, [("                ChangeClusterStatus::ChangeStatusRejected\n            }\n        };\n", "                ChangeClusterStatus::ChangeStatusPending\n            }\n        };\n")], R),
 ("report dropped pending", D, [("                Ok(ChangeClusterStatus::ChangeStatusRejected)", "                Ok(ChangeClusterStatus::ChangeStatusPending)")], R),
 ("report change id", D, [("            change_id: change_cluster_request.change_id,\n", "            change_id: change_cluster_request.replica_id,\n")], R),
 ("report state index", D, [("                applied_index: self.raft_progress.applied_index,\n                latest", "                applied_index: self.raft_progress.applied_index + 1,\n                latest")], R),
 ("report check lost", D, [("        self.cluster_check_requested = true;\n", "        self.cluster_check_requested = self.raft_state.leader_replica_id == self.id;\n")], R),
 ("report early", D, [("            // Advance Raft internal state.\n            self.advance_raft()?;\n\n            // Maybe create a snashot of the actor to reduce the size of the log.\n            self.maybe_create_raft_snapshot()?;\n\n            // If the leader state has changed send it out for observability.\n            self.stash_leader_state();\n", "            self.stash_leader_state();\n            self.advance_raft()?;\n            self.maybe_create_raft_snapshot()?;\n")], R),
 ("report logs lost", D, [("        for log_message in self.logger_output.take_entries() {\n", "        for log_message in self.logger_output.take_entries().into_iter().take(100) {\n")], R),
 # start
 ("start applied", D, [("                applied_index: 1,\n", "                applied_index: 0,\n")], X),
 ("start voters", D, [("voters: vec![self.id],", "voters: vec![1],")], X),
 ("start progress always", D, [("        if leader {\n            self.raft_progress", "        if self.id > 0 {\n            self.raft_progress")], X),
 ("start heartbeat", D, [("            config.heartbeat_tick = raft_config.heartbeat_tick as usize;\n", "            config.heartbeat_tick = raft_config.election_tick as usize;\n")], X),
 ("start no max", D, [("            config.max_size_per_msg = raft_config.max_size_per_msg;\n", "")], X),
 ("start count late", D, [("            if let Some(snapshot_config) = &raft_config.snapshot_config {\n                self.driver_config.snapshot_count = snapshot_config.snapshot_count;\n            }\n", ""), ("        self.tick_instant = self.instant;\n        // No need", "        if let Some(Some(snapshot_config)) = raft_config.as_ref().map(|c| &c.snapshot_config) {\n            self.driver_config.snapshot_count = snapshot_config.snapshot_count;\n        }\n        self.tick_instant = self.instant;\n        // No need")], X),
 ("start tick zero", D, [("        self.tick_instant = self.instant;\n        // No need", "        // No need")], X),
 ("start actor error", D, [("            error!(self.logger, \"Failed to initialize actor: {}\", e);\n\n            // Failure to initialize actor must lead to termination.\n            PalError::Actor\n        })?;\n", "            error!(self.logger, \"Failed to initialize actor: {}\", e);\n\n            PalError::Actor\n        }).ok();\n")], X),
 ("start config late", D, [("        self.mut_core().set_immutable_state(id, app_config);\n\n", ""), ("        self.is_ephemeral = start_replica_request.is_ephemeral;\n", "        self.mut_core().set_immutable_state(id, app_config);\n        self.is_ephemeral = start_replica_request.is_ephemeral;\n")], X),
 ("start transfers unconfigured", D, [("                Some(raft_config) => &raft_config.snapshot_config,\n                None => &None,\n", "                Some(_) => &None,\n                None => &None,\n")], X),
 ("start references default", D, [("        communication_config.reference_values = self.actor.get_reference_values();\n", "        if !self.is_ephemeral { communication_config.reference_values = self.actor.get_reference_values(); }\n")], X),
 ("start clock ignored", D, [("                .unwrap_or_else(|| self.default_clock.clone()),\n", "                .filter(|_| self.is_ephemeral).unwrap_or_else(|| self.default_clock.clone()),\n")], X),
 ("start timeout", D, [("handshake_initiated_tick_timeout: raft_config.heartbeat_tick * 10,", "handshake_initiated_tick_timeout: raft_config.election_tick * 10,")], X),
 ("start answer early", D, [("        self.driver_state = DriverState::Started;\n\n        self.stash_message(out_message::Msg::StartReplica(StartReplicaResponse {\n            replica_id: self.id,\n        }));\n", "        self.driver_state = DriverState::Started;\n"), ("        let id = self.id;\n        let app_config", "        if !start_replica_request.is_leader { self.stash_message(out_message::Msg::StartReplica(StartReplicaResponse {\n            replica_id: self.id,\n        })); }\n        let id = self.id;\n        let app_config")], X),
 ("start leader flag", D, [("                start_replica_request.is_leader,\n            )?;", "                start_replica_request.is_leader || start_replica_request.replica_id_hint == 1,\n            )?;")], X),
 ("stop no shutdown", D, [("        self.actor.on_shutdown();\n\n", "        if !self.is_ephemeral { self.actor.on_shutdown(); }\n\n")], X),
 # adapter
 ("node first snapshot index", C, [("create_raft_snapshot_metadata(1, 1,", "create_raft_snapshot_metadata(0, 1,")], N),
 ("node first snapshot follower", C, [("        if leader {\n            let snapshot", "        if leader || snapshot.is_empty() {\n            let snapshot")], N),
 ("node leader candidate", C, [("self.raft_node().status().ss.raft_state == RaftStateRole::Leader\n    }", "self.raft_node().status().ss.leader_id != 0\n    }")], N),
 ("node state follower", C, [("        if raft_soft_state.raft_state == RaftStateRole::Leader {\n", "        if raft_soft_state.raft_state != RaftStateRole::Candidate {\n")], N),
 ("node term lost", C, [("            state.leader_term = raft_hard_state.term;\n", "            state.leader_term = raft_hard_state.commit;\n")], N),
 ("node persisted twice", C, [("            ready.take_messages(),\n            ready.take_persisted_messages(),", "            ready.take_persisted_messages(),\n            ready.take_messages(),")], N),
 ("node hard state lost", C, [("            ready.hs().cloned(),\n", "            ready.hs().filter(|h| h.vote != 0).cloned(),\n")], N),
 ("node light entries lost", C, [("            light_ready.take_messages(),\n            light_ready.take_committed_entries(),", "            light_ready.take_messages(),\n            vec![],")], N),
 ("node take copies", C, [("        mem::take(&mut self.persisted_messages)", "        mem::take(&mut self.messages)")], N),
 ("node report status", C, [("        self.mut_raft_node().report_snapshot(replica_id, status);", "        let _ = status;\n        self.mut_raft_node().report_snapshot(replica_id, RaftSnapshotStatus::Finish);")], N),
 ("node step dropped", C, [("        self.mut_raft_node().step(message)", "        if message.term == 0 { return Ok(()); }\n        self.mut_raft_node().step(message)")], N),
 # refactorings
 ("refactor ready helper", D, [("        let mut raft_ready = self.raft.get_ready();\n\n        // Send out messages to the peers.\n        self.send_raft_messages(raft_ready.take_messages())?;\n\n        if let Some(raft_hard_state) = raft_ready.hard_state() {\n            // Persist changed hard state into the stable storage.\n            self.raft\n                .mut_store()\n                .set_hard_state(raft_hard_state.clone());\n        }\n", "        let mut raft_ready = self.raft.get_ready();\n        let messages = raft_ready.take_messages();\n        self.store_hard_state(raft_ready.hard_state());\n        self.send_raft_messages(messages)?;\n"), ("    fn reset_leader_state(&mut self) {", "    fn store_hard_state(&mut self, state: Option<&raft::eraftpb::HardState>) {\n        match state {\n            None => {}\n            Some(state) => self.raft.mut_store().set_hard_state(state.clone()),\n        }\n    }\n\n    fn reset_leader_state(&mut self) {")], None),
 ("refactor entries sort key", D, [("sort_by(|a, b| a.index.cmp(&b.index))", "sort_by_key(|entry| entry.index)")], None),
 ("refactor entry kinds", D, [("            if let RaftEntryType::EntryConfChange = committed_entry.get_entry_type() {\n", "            let is_config_change =\n                matches!(committed_entry.get_entry_type(), RaftEntryType::EntryConfChange);\n            if is_config_change {\n")], None),
 ("refactor commands extend", D, [("        for actor_message in message_outcome.commands {\n            self.stash_message(out_message::Msg::DeliverAppMessage(DeliverAppMessage {\n                correlation_id: actor_message.correlation_id,\n                message_header: actor_message.header,\n                message_payload: actor_message.payload,\n            }));\n        }\n", "        self.messages\n            .extend(message_outcome.commands.into_iter().map(|command| OutMessage {\n                msg: Some(out_message::Msg::DeliverAppMessage(DeliverAppMessage {\n                    correlation_id: command.correlation_id,\n                    message_header: command.header,\n                    message_payload: command.payload,\n                })),\n            }));\n")], None),
 ("refactor commands helper", D, [("                for actor_command in event_outcome.commands {\n                    self.stash_message(out_message::Msg::DeliverAppMessage(DeliverAppMessage {\n                        correlation_id: actor_command.correlation_id,\n                        message_header: actor_command.header,\n                        message_payload: actor_command.payload,\n                    }));\n                }\n            }\n        }\n\n        Ok(())\n    }\n\n    fn send_raft", "                self.stash_commands(event_outcome.commands);\n            }\n        }\n\n        Ok(())\n    }\n\n    fn stash_commands(&mut self, commands: Vec<ActorCommand>) {\n        for ActorCommand { correlation_id, header, payload } in commands {\n            let message = DeliverAppMessage {\n                correlation_id,\n                message_header: header,\n                message_payload: payload,\n            };\n            self.stash_message(out_message::Msg::DeliverAppMessage(message));\n        }\n    }\n\n    fn send_raft")], None),
 ("refactor proposals drain", D, [("        let proposals = self.mut_core().take_outputs();\n\n        for proposal in proposals {\n            self.make_raft_proposal(proposal)?;\n        }\n\n        Ok(())", "        let proposals = self.core.borrow_mut().take_outputs();\n        proposals\n            .into_iter()\n            .try_for_each(|proposal| self.make_raft_proposal(proposal))")], None),
 ("refactor system let else", D, [("        if message.is_none() {\n            return Ok(());\n        }\n\n        let message = message.unwrap();\n        match message {\n            in_message::Msg::DeliverSystemMessage(m) => self", "        let Some(message) = message else {\n            return Ok(());\n        };\n        match message {\n            in_message::Msg::DeliverSystemMessage(m) => self")], None),
 ("refactor step guards", D, [("                if self.id != recipient_replica_id {\n                    // Ignore incorrectly routed message\n                    warn!(\n                        self.logger,\n                        \"Ignoring incorectly routed Raft message: recipient id {}\",\n                        recipient_replica_id\n                    );\n                    return Ok(());\n                }\n                if message.get_from() != sender_replica_id {\n", "                let routed = recipient_replica_id == self.id;\n                let genuine = message.get_from() == sender_replica_id;\n                if !(routed && genuine) {\n")], None),
 ("refactor step order", D, [("        match deserialize_raft_message(message_contents) {\n            Err(e) => {", "        if recipient_replica_id != self.id {\n            return Ok(());\n        }\n        match deserialize_raft_message(message_contents) {\n            Err(e) => {")], None),
 ("refactor tick", D, [("        if self.instant - self.tick_instant >= self.driver_config.tick_period {\n            self.tick_instant = self.instant;\n            // invoke Raft tick to trigger timer based changes.\n            self.raft.make_tick();\n        }", "        let elapsed = self.instant - self.tick_instant;\n        if elapsed < self.driver_config.tick_period {\n            return;\n        }\n        self.raft.make_tick();\n        self.tick_instant = self.instant;")], None),
 ("refactor time", D, [("        self.instant = cmp::max(self.instant, instant);\n        let instant = self.instant;\n        let leader = self.check_raft_leadership();\n        self.mut_core().set_state(instant, leader);\n", "        self.instant = self.instant.max(instant);\n        let instant = self.instant;\n        let leader = self.raft.leader();\n        {\n            let mut core = self.core.borrow_mut();\n            core.leader = leader;\n            core.instant = instant;\n        }\n")], None),
 ("refactor report", D, [("        if !raft_state_changed && !cluster_check_requested {\n            return;\n        }\n\n        if raft_state_changed {", "        if !(raft_state_changed || cluster_check_requested) {\n            return;\n        }\n\n        if self.prev_raft_state != self.raft_state {")], None),
 ("refactor change cluster", D, [("            _ => {\n                warn!(self.logger, \"Rejecting cluster change command: unknown\");\n", "            Ok(ChangeClusterType::ChangeTypeUnspecified) | Err(_) => {\n                warn!(self.logger, \"Rejecting cluster change command: unknown\");\n")], None),
 ("refactor change kind first", D, [("        let change_status = match ChangeClusterType::try_from(change_cluster_request.change_type) {\n            Ok(ChangeClusterType::ChangeTypeAddReplica) => self.make_raft_config_change_proposal(\n                change_cluster_request.replica_id,\n                RaftConfigChangeType::AddNode,\n            )?,\n            Ok(ChangeClusterType::ChangeTypeRemoveReplica) => self\n                .make_raft_config_change_proposal(\n                    change_cluster_request.replica_id,\n                    RaftConfigChangeType::RemoveNode,\n                )?,\n            _ => {\n                warn!(self.logger, \"Rejecting cluster change command: unknown\");\n\n                ChangeClusterStatus::ChangeStatusRejected\n            }\n        };\n", "        let change_type = match ChangeClusterType::try_from(change_cluster_request.change_type) {\n            Ok(ChangeClusterType::ChangeTypeAddReplica) => Some(RaftConfigChangeType::AddNode),\n            Ok(ChangeClusterType::ChangeTypeRemoveReplica) => Some(RaftConfigChangeType::RemoveNode),\n            _ => None,\n        };\n        let change_status = match change_type {\n            Some(change_type) => self\n                .make_raft_config_change_proposal(change_cluster_request.replica_id, change_type)?,\n            None => ChangeClusterStatus::ChangeStatusRejected,\n        };\n")], None),
 ("refactor snapshot restored", D, [("        if raft_snapshot.is_empty() {\n            // Nothing to restore if the snapshot is empty.\n            return Ok(());\n        }\n", "        let empty = raft_snapshot.is_empty();\n        if empty {\n            return Ok(());\n        }\n"), ("        self.collect_config_state(get_config_state(raft_snapshot).clone());\n", ""), ("        // Applied index is reset to the snapshot index.\n", "        self.raft_progress.config_state = get_config_state(raft_snapshot).clone();\n")], None),
 ("refactor snapshots sending", D, [("                while let Some(request) = sender.next_request() {\n                    out_messages.push(OutgoingMessage::DeliverSnapshotRequest(request));\n                }\n", "                loop {\n                    match sender.next_request() {\n                        Some(request) => {\n                            out_messages.push(OutgoingMessage::DeliverSnapshotRequest(request))\n                        }\n                        None => break,\n                    }\n                }\n")], None),
 ("refactor refused transfers", D, [("                if !snapshot_messages.is_empty() {\n                    warn!(\n                        self.logger,\n                        \"Unexpected snapshot sending while playing receiver role\"\n                    );\n                    for snapshot_message in snapshot_messages {\n                        self.raft\n                            .report_snapshot(snapshot_message.to, RaftSnapshotStatus::Failure);\n                    }\n                }\n", "                for snapshot_message in snapshot_messages {\n                    self.raft\n                        .report_snapshot(snapshot_message.to, RaftSnapshotStatus::Failure);\n                }\n")], None),
 ("refactor progress fields", D, [("            self.raft_progress = RaftProgress {\n                applied_index: 1,\n                config_state: RaftConfigState {\n                    voters: vec![self.id],\n                    ..Default::default()\n                },\n            };\n", "            self.raft_progress.applied_index = 1;\n            self.raft_progress.config_state = RaftConfigState {\n                voters: vec![self.id],\n                ..Default::default()\n            };\n")], None),
 ("refactor start config", D, [("        let mut communication_config = match &start_replica_request.raft_config {\n            Some(raft_config) => CommunicationConfig {\n                handshake_retry_tick: raft_config.handshake_retry_tick,\n                handshake_initiated_tick_timeout: raft_config.heartbeat_tick * 10,\n                reference_values: ReferenceValues::default(),\n                endorsements: Endorsements::default(),\n            },\n            None => CommunicationConfig {\n                // System defaults.\n                handshake_retry_tick: 1,\n                handshake_initiated_tick_timeout: 10,\n                reference_values: ReferenceValues::default(),\n                endorsements: Endorsements::default(),\n            },\n        };\n        communication_config.reference_values = self.actor.get_reference_values();\n        communication_config.endorsements =\n            start_replica_request.endorsements.as_ref().unwrap().clone();\n", "        let (handshake_retry_tick, handshake_initiated_tick_timeout) =\n            match &start_replica_request.raft_config {\n                Some(raft_config) => (\n                    raft_config.handshake_retry_tick,\n                    raft_config.heartbeat_tick * 10,\n                ),\n                None => (1, 10),\n            };\n        let communication_config = CommunicationConfig {\n            handshake_retry_tick,\n            handshake_initiated_tick_timeout,\n            reference_values: self.actor.get_reference_values(),\n            endorsements: start_replica_request.endorsements.clone().unwrap(),\n        };\n")], None),
 ("refactor gate inline", D, [("        self.check_driver_started()?;\n        self.check_non_ephemeral()?;\n\n        self.reset_leader_state();", "        if self.driver_state != DriverState::Started || self.is_ephemeral {\n            return Err(PalError::InvalidOperation);\n        }\n\n        self.prev_raft_state = RaftState::new();\n        self.cluster_check_requested = true;"), ("    fn reset_leader_state(&mut self) {\n        self.prev_raft_state = RaftState::new();\n        self.cluster_check_requested = true;\n    }\n\n", "")], None),
 ("refactor dispatch", D, [("        if let Some(deserialized_message) = opt_message {\n            match deserialized_message.msg {", "        if let Some(InMessage { msg }) = opt_message {\n            match msg {")], None),
 ("refactor leader", C, [("        self.raft_node.is_some() && self.raft_node().status().ss.raft_state == RaftStateRole::Leader\n", "        match &self.raft_node {\n            Some(node) => node.status().ss.raft_state == RaftStateRole::Leader,\n            None => false,\n        }\n")], None),
 ("refactor state", C, [("        let raft_hard_state: RaftHardState;\n        let raft_soft_state: RaftSoftState;\n        {\n            let raft_status = self.raft_node().status();\n            raft_hard_state = raft_status.hs;\n            raft_soft_state = raft_status.ss;\n        }\n\n        let mut state = RaftState::new();\n        if raft_soft_state.raft_state == RaftStateRole::Leader {\n            state.leader_replica_id = raft_soft_state.leader_id;\n            state.leader_term = raft_hard_state.term;\n            state.has_pending_change = self.raft_node().raft.has_pending_conf();\n        }\n\n        state\n", "        let node = self.raft_node();\n        let status = node.status();\n        if status.ss.raft_state != RaftStateRole::Leader {\n            return RaftState::default();\n        }\n        RaftState {\n            leader_replica_id: status.ss.leader_id,\n            leader_term: status.hs.term,\n            has_pending_change: node.raft.has_pending_conf(),\n            ..Default::default()\n        }\n"), ("    Error as RaftError, RawNode as RaftNode, RawNode, Ready, SnapshotStatus as RaftSnapshotStatus,\n    SoftState as RaftSoftState, StateRole", "    Error as RaftError, RawNode as RaftNode, RawNode, Ready, SnapshotStatus as RaftSnapshotStatus,\n    StateRole")], None),
 ("refactor ready order", C, [("        let mut ready = self.mut_raft_node().ready();\n        let raft_ready = RaftReady::new(\n            ready.take_messages(),", "        let mut ready = self.mut_raft_node().ready();\n        let number = ready.number();\n        let raft_ready = RaftReady::new(\n            ready.take_messages(),"), ("        self.raft_ready.insert(ready.number(), ready);\n", "        self.raft_ready.insert(number, ready);\n")], None),
]
