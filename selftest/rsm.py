T = "apps/tablet_store/service/src/actor.rs"
A = "apps/atomic_counter/service/src/actor.rs"
W = "apps/willow/decryptor/actor/src/actor.rs"
CASES = [
 # tablet store
 ("apply partial", T, [("        if all_succeeded {\n            for (tablet_op", "        if all_succeeded || request.tablet_ops.len() > 1 {\n            for (tablet_op")], {"C60"}),
 ("status from last", T, [("            all_succeeded &= tablet_op_result.status", "            all_succeeded = tablet_op_result.status")], {"C60"}),
 ("skip second apply", T, [(".zip(tablet_op_prepare_results.into_iter())\n", ".zip(tablet_op_prepare_results.into_iter())\n                .take(8)\n")], {"C60"}),
 ("commit only changed", T, [("                self.tablets\n                    .insert(updated_tablet.tablet_id, updated_tablet);\n", "                if updated_tablet.tablet_version > 1 { self.tablets\n                    .insert(updated_tablet.tablet_id, updated_tablet); }\n")], {"C60"}),
 ("version at least", T, [("if updated_tablet.tablet_version == existing_tablet.tablet_version + 1 {", "if updated_tablet.tablet_version >= existing_tablet.tablet_version + 1 {")], {"C61"}),
 ("version same", T, [("if updated_tablet.tablet_version == existing_tablet.tablet_version + 1 {", "if updated_tablet.tablet_version == existing_tablet.tablet_version {")], {"C61"}),
 ("no dup check", T, [("                if !updated_tablets.insert(tablet_key) {", "                if !updated_tablets.insert(tablet_key) && tablet_op_prepare_results.len() > 4 {")], {"C61"}),
 ("check older", T, [("if existing_tablet.tablet_version == check_tablet_op.tablet_version {", "if existing_tablet.tablet_version <= check_tablet_op.tablet_version {")], {"C61"}),
 ("check no report", T, [("                        check_tablet_result.existing_tablet = Some(existing_tablet.clone());", "                        if existing_tablet.tablet_version > 0 { check_tablet_result.existing_tablet = Some(existing_tablet.clone()); }")], {"C61"}),
 ("missing table ok", T, [("                status: TabletOpStatus::Invalid.into(),\n                op_result: None,", "                status: TabletOpStatus::Succeeded.into(),\n                op_result: None,")], {"C61"}),
 ("list break early", T, [("if *tablet_id >= key_hash_to {", "if *tablet_id + 1 >= key_hash_to {")], {"C62"}),
 ("list no wrap", T, [("            if !found_last {\n", "            if !found_last && listed_tablets.is_empty() {\n")], {"C62"}),
 ("list range exclusive", T, [("key_hash_intervals.push((0, key_hash_to));", "key_hash_intervals.push((1, key_hash_to));")], {"C62"}),
 ("list wrap equal", T, [("if key_hash_from < key_hash_to {", "if key_hash_from <= key_hash_to {")], {"C62"}),
 ("snapshot no clear", T, [("        self.tablets.clear();\n", "        if snapshot.table_tablets.is_empty() { self.tablets.clear(); }\n")], {"C63"}),
 ("snapshot skip deleted", T, [("            table_tablets.push(tablet_metadata.clone());", "            if tablet_metadata.tablet_version > 0 { table_tablets.push(tablet_metadata.clone()); }")], {"C63"}),
 ("snapshot first table", T, [("        for table in self.tables.values() {\n            table_snapshots", "        for table in self.tables.values().take(1) {\n            table_snapshots")], {"C63"}),
 ("load unknown ignored", T, [("            let table = self\n                .tables\n                .get_mut(&table_snapshot.table_name)\n                .ok_or(ActorError::SnapshotLoading)?;\n            table.load_snapshot(table_snapshot);", "            if let Some(table) = self.tables.get_mut(&table_snapshot.table_name) { table.load_snapshot(table_snapshot); }")], {"C63"}),
 ("init one tablet", T, [("        for tablet_id in configured_tablets {", "        for tablet_id in configured_tablets.into_iter().skip(1) {")], {"C63"}),
 ("init version", T, [("                    tablet_id,\n                    ..Default", "                    tablet_id,\n                    tablet_version: 1,\n                    ..Default")], {"C63"}),
 ("gate leader late", T, [("        if !self.get_context().leader() {\n            return self.create_error", "        if !self.get_context().leader() && command.payload.len() > 0 {\n            return self.create_error")], {"C64"}),
 ("gate cid", T, [("                        Err(e) => {\n                            return self.create_error_outcome(\n                                format!(\"Rejecting command: {}\", e),\n                                command.correlation_id,", "                        Err(e) => {\n                            return self.create_error_outcome(\n                                format!(\"Rejecting command: {}\", e),\n                                0,")], {"C64"}),
 ("gate payload unchecked", T, [("                        Err(e) => {\n                            return self.create_error_outcome(\n                                format!(\"Rejecting command: {}\", e),\n                                command.correlation_id,\n                                ExecuteTabletOpsStatus::InvalidOperation,\n                            );\n                        }", "                        Err(_) => command.payload,")], {"C64"}),
 ("respond always", T, [("        if owned {\n            commands.push", "        if owned || correlation_id == 0 {\n            commands.push")], {"C60"}),
 ("apply only owned", T, [("        let (out_header, out_payload) = self.on_apply_tablets_request(tablets_request);", "        if !context.owned && tablets_request.tablet_ops.len() > 1 { return Ok(EventOutcome::with_none()); }\n        let (out_header, out_payload) = self.on_apply_tablets_request(tablets_request);")], {"C60", "C65", "C64"}),
 ("leader applies", T, [("            Op::UpdateTablet(update_tablet_op) => {\n                let updated_tablet = update_tablet_op.tablet_metadata.unwrap();\n                self.tablets\n", "            Op::UpdateTablet(update_tablet_op) => {\n                let mut updated_tablet = update_tablet_op.tablet_metadata.unwrap();\n                updated_tablet.tablet_version = OsRng.next_u32();\n                self.tablets\n")], {"C65", "C60"}),
 # counter
 ("cas less", A, [("if existing_value.value == compare_and_swap_request.expected_value {", "if existing_value.value <= compare_and_swap_request.expected_value {")], {"C70"}),
 ("cas old after", A, [("        compare_and_swap_response.old_value = existing_value.value;\n", ""), ("            response.status = CounterStatus::Success.into();", "            compare_and_swap_response.old_value = existing_value.value;\n            response.status = CounterStatus::Success.into();")], {"C70"}),
 ("cas no payload", A, [("            existing_value.payload = payload;\n", "            if !payload.is_empty() { existing_value.payload = payload; }\n")], {"C70"}),
 ("cas init one", A, [("            value: 0,\n            payload: Bytes::new(),\n        });", "            value: compare_and_swap_request.expected_value,\n            payload: Bytes::new(),\n        });")], {"C70"}),
 ("cas respond all", A, [("        if context.owned {\n            return Ok(EventOutcome::with_command", "        if context.owned || context.index == 0 {\n            return Ok(EventOutcome::with_command")], {"C70"}),
 ("cas fail new", A, [("            compare_and_swap_response.new_value = existing_value.value;", "            compare_and_swap_response.new_value = compare_and_swap_request.new_value;")], {"C70"}),
 ("cas status", A, [("response.status = CounterStatus::InvalidArgumentError.into();", "response.status = if compare_and_swap_request.new_value == existing_value.value { CounterStatus::Success } else { CounterStatus::InvalidArgumentError }.into();")], {"C70"}),
 ("counter snapshot payload", A, [("                    payload: value.payload.clone(),\n", "                    payload: Bytes::new(),\n")], {"C71"}),
 ("counter snapshot zero", A, [("        for (name, value) in &self.values {\n", "        for (name, value) in &self.values {\n            if value.value == 0 { continue; }\n")], {"C71"}),
 ("counter load fail", A, [("CounterSnapshot::decode(snapshot).map_err(|_| ActorError::SnapshotLoading)?;", "CounterSnapshot::decode(snapshot).unwrap_or_default();")], {"C71"}),
 ("counter init", A, [("                CounterValue {\n                    value,\n                    payload: Bytes::new(),", "                CounterValue {\n                    value: value.max(0),\n                    payload: Bytes::new(),")], {"C71"}),
 ("counter context", A, [("                                request.context = Bytes::new();\n", "                                if request.payload.is_empty() { request.context = Bytes::new(); }\n")], {"C72"}),
 ("counter leader", A, [("                            if !self.get_context().leader() {\n                                status = CounterStatus::Rejected;", "                            if !self.get_context().leader() && !request.context.is_empty() {\n                                status = CounterStatus::Rejected;")], {"C72"}),
 ("counter silent", A, [("                None => {\n                    status = CounterStatus::InvalidOperationError;\n                }", "                None => {\n                    return Ok(CommandOutcome::with_none());\n                }")], {"C72"}),
 ("counter early", A, [("                                request.context = Bytes::new();\n", "                                request.context = Bytes::new();\n                                self.values.insert(request.name.clone(), CounterValue { value: 0, payload: Bytes::new() });\n")], {"C72"}),
 ("counter owned write", A, [("            existing_value.payload = payload;\n", "            if index > 0 { existing_value.payload = payload; }\n")], {"C70"}),
 # willow
 ("no consume", W, [("        let key_pair = self.key_pairs.remove(&decrypt_event.key_id[..]);\n", "        let key_pair = if context.owned { self.key_pairs.remove(&decrypt_event.key_id[..]) } else { None };\n")], {"C80"}),
 ("answer twice", W, [("            if key_pair.is_none() {\n                return self.event_err(", "            if key_pair.is_none() && decrypt_event.decryption_response.is_empty() {\n                return self.event_err(")], {"C80"}),
 ("early answer", W, [("                return Ok(CommandOutcome::with_event(ActorEvent::with_proto(\n                    correlation_id,\n                    &DecryptorEvent {\n                        event: Some(decryptor_event::Event::DecryptEvent(DecryptEvent {\n                            key_id: key_id.into(),\n                            decryption_response: response.to_vec(),\n                        })),\n                    },\n                )));", "                return Ok(CommandOutcome::with_command(ActorCommand::with_header(\n                    correlation_id,\n                    &DecryptorResponse {\n                        msg: Some(decryptor_response::Msg::Decrypt(DecryptResponse {\n                            decryption_response: response.to_vec(),\n                        })),\n                    },\n                )));")], {"C80", "C81"}),
 ("evict newest", W, [(".min_by_key(", ".max_by_key(")], {"C82"}),
 ("evict by id", W, [(".min_by_key(|(_, kp)| kp.sequential_order)", ".min_by_key(|(k, _)| k.len())")], {"C82"}),
 ("overwrite key", W, [("        if is_new_key {\n            self.key_pairs.insert(", "        if is_new_key || sequential_order == 1 {\n            self.key_pairs.insert(")], {"C82"}),
 ("evict for old", W, [("if is_new_key && (self.key_pairs", "if (self.key_pairs")], {"C82"}),
 ("lowest order", W, [(".map(|kp| kp.sequential_order).max()", ".map(|kp| kp.sequential_order).min()")], {"C82"}),
 ("answer new share", W, [("            public_key_share = existing_key_pair.public_key_share.clone();\n", "            if context.owned { public_key_share = existing_key_pair.decryptor_state.clone(); }\n")], {"C82"}),
 ("no key id", W, [("            key.set_key_id(generate_key_event.key_id.clone());\n", "")], {"C82"}),
 ("snapshot order", W, [("                sequential_order: key_pair.sequential_order,\n            });", "                sequential_order: 0,\n            });")], {"C83"}),
 ("snapshot keep", W, [("        self.key_pairs.clear();\n", "")], {"C83"}),
 ("snapshot swap", W, [("                public_key_share: key_pair.public_key_share.clone(),\n                private_key_share: key_pair.decryptor_state.clone(),", "                public_key_share: key_pair.decryptor_state.clone(),\n                private_key_share: key_pair.public_key_share.clone(),")], {"C83"}),
 ("follower decrypts", W, [("        if !self.get_context().leader() {\n", "        if !self.get_context().leader() && decryptor_request.msg.is_none() {\n")], {"C84"}),
 ("malformed panics", W, [("        let request_proto = PartialDecryptionRequestProto::parse(&request_bytes)\n            .map_err(|e| invalid_request(format!(\"{:?}\", e)))?;", "        let request_proto = PartialDecryptionRequestProto::parse(&request_bytes).unwrap();")], {"C81"}),
 ("state of other", W, [("        let key_pair = self.get_key_pair(&key_id);\n\n        if key_pair == None", "        let key_pair = self.get_key_pair(&key_id).or(self.key_pairs.values().next());\n\n        if key_pair == None")], {"C81"}),
 # refactorings
 ("r find first", T, [("        let table_opt = self.tables.get(&tablet_op.table_name);\n        if table_opt.is_none() || tablet_op.op.is_none() {\n            return TabletOpResult {\n                table_name: tablet_op.table_name.clone(),\n                status: TabletOpStatus::Invalid.into(),\n                op_result: None,\n            };\n        }\n        table_opt\n            .unwrap()\n            .prepare_tablet_op(tablet_op.table_name.clone(), tablet_op.op.as_ref().unwrap())", "        match (self.tables.get(&tablet_op.table_name), &tablet_op.op) {\n            (Some(table), Some(op)) => table.prepare_tablet_op(tablet_op.table_name.clone(), op),\n            _ => TabletOpResult {\n                table_name: tablet_op.table_name.clone(),\n                status: TabletOpStatus::Invalid.into(),\n                op_result: None,\n            },\n        }")], None),
 ("r all_succeeded", T, [("            all_succeeded &= tablet_op_result.status == TabletOpStatus::Succeeded as i32;\n", "            if tablet_op_result.status != TabletOpStatus::Succeeded as i32 {\n                all_succeeded = false;\n            }\n")], None),
 ("r load table", T, [("        self.tablets.clear();\n        for table_tablet in snapshot.table_tablets {\n            self.tablets.insert(table_tablet.tablet_id, table_tablet);\n        }", "        self.tablets = BTreeMap::new();\n        snapshot.table_tablets.into_iter().for_each(|t| { self.tablets.insert(t.tablet_id, t); });")], None),
 ("r save collect", T, [("        let mut table_tablets = Vec::with_capacity(self.tablets.len());\n        for tablet_metadata in self.tablets.values() {\n            table_tablets.push(tablet_metadata.clone());\n        }\n", "        let mut table_tablets: Vec<TabletMetadata> = self.tablets.values().cloned().collect();\n")], None),
 ("r gate match", T, [("        if command.is_none() {\n            return Ok(CommandOutcome::with_none());\n        }\n        let command = command.unwrap();\n\n        if !self.get_context().leader() {", "        let Some(command) = command else {\n            return Ok(CommandOutcome::with_none());\n        };\n        let is_leader = self.get_context().leader();\n        if !is_leader {")], None),
 ("r create collect", T, [("        let mut tablets = BTreeMap::new();\n        for tablet_id in configured_tablets {\n            tablets.insert(\n                tablet_id,\n                TabletMetadata {\n                    tablet_id,\n                    ..Default::default()\n                },\n            );\n        }\n", "        let tablets = configured_tablets.into_iter().map(|tablet_id| (tablet_id, TabletMetadata { tablet_id, ..Default::default() })).collect();\n")], None),
 ("r outcome if", T, [("        let mut commands = Vec::new();\n        if owned {\n            commands.push(ActorCommand::with_header_and_payload(\n                correlation_id,\n                &TabletStoreOutMessage {\n                    out_msg: Some(out_header),\n                },\n                out_payload,\n            ));\n        }\n        Ok(EventOutcome::with_commands(commands))", "        if !owned {\n            return Ok(EventOutcome::with_none());\n        }\n        Ok(EventOutcome::with_command(ActorCommand::with_header_and_payload(\n                correlation_id,\n                &TabletStoreOutMessage {\n                    out_msg: Some(out_header),\n                },\n                out_payload,\n            )))")], None),
 ("r cas match", A, [("        let existing_value_ref = self.values.entry_ref(counter_name);\n        let existing_value = existing_value_ref.or_insert_with(|| CounterValue {\n            value: 0,\n            payload: Bytes::new(),\n        });\n", "        let existing_value = self.values.entry(counter_name.clone()).or_insert(CounterValue {\n            value: 0,\n            payload: Bytes::new(),\n        });\n")], None),
 ("r cas old local", A, [("        compare_and_swap_response.old_value = existing_value.value;\n        if existing_value.value == compare_and_swap_request.expected_value {", "        let old = existing_value.value;\n        compare_and_swap_response.old_value = old;\n        if old == compare_and_swap_request.expected_value {")], None),
 ("r cas ne", A, [("        if existing_value.value == compare_and_swap_request.expected_value {\n            existing_value.value = compare_and_swap_request.new_value;\n            existing_value.payload = payload;\n\n            response.status = CounterStatus::Success.into();\n            compare_and_swap_response.new_value = compare_and_swap_request.new_value;\n        } else {\n            response.status = CounterStatus::InvalidArgumentError.into();\n            compare_and_swap_response.new_value = existing_value.value;\n        }", "        if existing_value.value != compare_and_swap_request.expected_value {\n            response.status = CounterStatus::InvalidArgumentError.into();\n            compare_and_swap_response.new_value = existing_value.value;\n        } else {\n            response.status = CounterStatus::Success.into();\n            compare_and_swap_response.new_value = compare_and_swap_request.new_value;\n            existing_value.payload = payload;\n            existing_value.value = compare_and_swap_request.new_value;\n        }")], None),
 ("r counter owned first", A, [("        if context.owned {\n            return Ok(EventOutcome::with_command(ActorCommand::with_header(\n                event.correlation_id,\n                &AtomicCounterOutMessage {\n                    msg: Some(atomic_counter_out_message::Msg::CounterResponse(response)),\n                },\n            )));\n        }\n\n        Ok(EventOutcome::with_none())", "        if !context.owned {\n            return Ok(EventOutcome::with_none());\n        }\n        let out = AtomicCounterOutMessage {\n            msg: Some(atomic_counter_out_message::Msg::CounterResponse(response)),\n        };\n        Ok(EventOutcome::with_command(ActorCommand::with_header(event.correlation_id, &out)))")], None),
 ("r counter snapshot collect", A, [("        let mut snapshot = CounterSnapshot {\n            values: BTreeMap::new(),\n        };\n\n        for (name, value) in &self.values {\n            snapshot.values.insert(\n                name.to_string(),\n                CounterSnapshotValue {\n                    value: value.value,\n                    payload: value.payload.clone(),\n                },\n            );\n        }\n", "        let snapshot = CounterSnapshot {\n            values: self.values.iter().map(|(name, value)| (name.to_string(), CounterSnapshotValue { value: value.value, payload: value.payload.clone() })).collect(),\n        };\n")], None),
 ("r counter gate", A, [("                            if request.op.is_none() {\n                                status = CounterStatus::InvalidOperationError;\n\n                                warn!(\n                                    self.get_context().logger(),\n                                    \"Rejecting #{} command: unknown op\", request.name\n                                );\n                            }\n\n                            if !self.get_context().leader() {\n                                status = CounterStatus::Rejected;\n\n                                warn!(\n                                    self.get_context().logger(),\n                                    \"Rejecting #{} command: not a leader\", request.name\n                                );\n                            }\n\n                            if let CounterStatus::Success = status {", "                            if !self.get_context().leader() {\n                                status = CounterStatus::Rejected;\n                            } else if request.op.is_none() {\n                                status = CounterStatus::InvalidOperationError;\n                            }\n                            if status == CounterStatus::Success {")], None),
 ("r willow loop min", W, [("            let key_to_remove = self\n                .key_pairs\n                .iter()\n                .min_by_key(|(_, kp)| kp.sequential_order)\n                .map(|(key, _)| key.clone());\n\n            key_to_remove.and_then(|k| self.key_pairs.remove(&k));", "            let mut oldest: Option<(&Vec<u8>, i32)> = None;\n            for (key, kp) in &self.key_pairs {\n                if oldest.map_or(true, |(_, order)| kp.sequential_order < order) {\n                    oldest = Some((key, kp.sequential_order));\n                }\n            }\n            if let Some(key) = oldest.map(|(key, _)| key.clone()) {\n                self.key_pairs.remove(&key);\n            }")], None),
 ("r willow entry", W, [("        if is_new_key {\n            self.key_pairs.insert(\n                generate_key_event.key_id.clone().into(),\n                KeyPair {\n                    public_key_share: public_key_share.clone(),\n                    decryptor_state: decryptor_state,\n                    sequential_order: sequential_order,\n                },\n            );\n        }", "        let new_pair = KeyPair { public_key_share: public_key_share.clone(), decryptor_state, sequential_order };\n        if is_new_key {\n            self.key_pairs.insert(generate_key_event.key_id.clone(), new_pair);\n        }")], None),
 ("r willow get", W, [("        if self.key_pairs.contains_key(&key_id) {\n            let public_key_share = self.key_pairs.get(&key_id).unwrap().public_key_share.clone();\n", "        if let Some(existing) = self.key_pairs.get(&key_id) {\n            let public_key_share = existing.public_key_share.clone();\n")], None),
 ("r willow decrypt", W, [("        if key_pair == None {", "        if key_pair.is_none() {")], None),
 ("r willow load", W, [("        self.key_pairs.clear();\n        for key_pair in snapshot.key_pairs {\n            self.key_pairs.insert(\n                key_pair.key_id.into(),\n                KeyPair {\n                    public_key_share: key_pair.public_key_share,\n                    decryptor_state: key_pair.private_key_share,\n                    sequential_order: key_pair.sequential_order,\n                },\n            );\n        }", "        self.key_pairs = snapshot.key_pairs.into_iter().map(|kp| (kp.key_id.into(), KeyPair { public_key_share: kp.public_key_share, decryptor_state: kp.private_key_share, sequential_order: kp.sequential_order })).collect();")], None),
 ("r willow err late", W, [("        match decryption_response {\n            Ok(response) => {\n                return Ok(CommandOutcome", "        let failed = decryption_response.is_err();\n        debug!(self.context.as_ref().unwrap().logger(), \"failed {}\", failed);\n        match decryption_response {\n            Ok(response) => {\n                return Ok(CommandOutcome")], None),
]
