F = "apps/tablet_cache/service/src/store.rs"
A = "apps/tablet_cache/service/src/actor.rs"
CASES = [
 ("responses at once", F, [("            self.requests.push(request);\n            self.responses.push(response);", "            self.responses.push(response);\n            self.requests.push(request.clone());\n            self.requests.pop();")], {"C42"}),
 ("retry only failed", F, [("                tablet_tracker.complete_transaction(&mut failed_requests);", "                let mut unprocessed = Vec::new();\n                tablet_tracker.complete_transaction(&mut unprocessed);")], {"C41"}),
 ("retry last", F, [("        for failed_request in failed_requests {\n            self.request_tracker.append_pending_request(failed_request);\n        }", "        if let Some(failed_request) = failed_requests.pop() {\n            self.request_tracker.append_pending_request(failed_request);\n        }")], {"C41"}),
 ("not freed", F, [("        self.has_transaction = false;\n", "        self.has_transaction = !self.waiting_processing_requests.is_empty();\n")], {"C41"}),
 ("two transactions", F, [("if self.pending_requests.len() >= self.min_pending && !self.has_transaction {", "if self.pending_requests.len() >= self.min_pending {")], {"C41"}),
 ("strict threshold", F, [("        if self.pending_requests.len() >= self.min_pending {\n            let query", "        if self.pending_requests.len() > self.min_pending {\n            let query")], {"C41"}),
 ("waiting overwritten", F, [("        if !waiting_requests.is_empty() {\n            self.waiting_resolution_requests", "        if waiting_requests.len() > 1 {\n            self.waiting_resolution_requests")], {"C41"}),
 ("partition ignored", F, [("        if !waiting_requests.is_empty() {\n            self.waiting_resolution_requests\n                .insert(table_query.get_id(), waiting_requests);\n        }\n", "        let _ = waiting_requests;\n")], {"C41"}),
 ("clone not take", F, [("            self.waiting_processing_requests\n                .insert(query.get_id(), mem::take(&mut self.pending_requests));", "            self.waiting_processing_requests\n                .insert(query.get_id(), self.pending_requests.clone());")], {"C41"}),
 ("first tablet only", F, [("                tablet_ids.push(*tablet_id);\n", "                if tablet_ids.is_empty() { tablet_ids.push(*tablet_id); }\n")], {"C41"}),
 ("id reused", F, [("        self.query_counter += 1;\n        self.query_counter", "        let id = self.query_counter;\n        if !self.table_name.is_empty() { self.query_counter += 1; }\n        id")], {"C41"}),
 ("completed kept", F, [("        for transaction_id in completed_transactions {\n            self.transaction_trackers.remove(&transaction_id);\n        }", "        if let Some(transaction_id) = completed_transactions.first() {\n            self.transaction_trackers.remove(transaction_id);\n        }")], {"C41"}),
 ("get existed from value", F, [("                    existed: existing_value.is_some(),\n                    value", "                    existed: existing_value.map_or(false, |v| !v.is_empty()),\n                    value")], {"C42"}),
 ("put existed", F, [("                    existed: existing_value.is_some(),\n                },\n            ))\n        } else {\n            None\n        }\n    }\n\n    fn process_get", "                    existed: existing_value.is_none(),\n                },\n            ))\n        } else {\n            None\n        }\n    }\n\n    fn process_get")], {"C42"}),
 ("put if absent", F, [("            let existing_value = tablet_contents\n                .dictionary\n                .insert(put_request.key.clone(), put_request.value.clone());", "            let existing_value = tablet_contents.dictionary.get(&put_request.key).cloned();\n            if existing_value.is_none() {\n                tablet_contents.dictionary.insert(put_request.key.clone(), put_request.value.clone());\n            }")], {"C42"}),
 ("last update wins", F, [("tablet_updated |= update && response.is_some();", "tablet_updated = update && response.is_some();")], {"C42"}),
 ("dirty on get", F, [("tablet_updated |= update && response.is_some();", "tablet_updated |= update || response.is_some();")], {"C42"}),
 ("not covered answered", F, [("        let key_hash = table_accessor.hash_key(&get_request.key);\n        if table_query.get_key_hashes().contains(&key_hash) {", "        let key_hash = table_accessor.hash_key(&get_request.key);\n        if table_query.get_key_hashes().contains(&key_hash) || tablet_contents.dictionary.is_empty() {")], {"C42"}),
 ("unprocessed dropped", F, [("                } else {\n                    tablet_requests.push(request);\n                }", "                }")], {"C42"}),
 ("thresholds swapped", F, [("RequestTracker::create(config.min_pending_before_resolve.try_into().unwrap());", "RequestTracker::create(config.min_pending_before_process.try_into().unwrap());")], {"C43"}),
 ("config lost", F, [("        self.config = config;\n", "        self.config.table_name = config.table_name;\n")], {"C43"}),
 # actor
 ("no progress of manager on input", A, [("        self.transaction_manager.make_progress(instant);\n", "        if self.get_context().leader() { self.transaction_manager.make_progress(instant); }\n")], {"C50"}),
 ("error ignored", A, [("                    InMsg::ExecuteTabletOpsError(error) => self\n                        .transaction_manager\n                        .process_in_message(transaction::InMessage::ExecuteTabletOpsError(\n                            command.correlation_id,\n                            error,\n                        )),", "                    InMsg::ExecuteTabletOpsError(_error) => {}")], {"C50"}),
 ("get as put id", A, [("                            .process_request(store::KeyValueRequest::Get(\n                                command.correlation_id,", "                            .process_request(store::KeyValueRequest::Get(\n                                0,")], {"C50"}),
 ("output before progress", A, [("        let instant = self.get_context().instant();\n        self.transaction_manager.make_progress(instant);\n        self.key_value_store\n            .make_progress(instant, &mut self.transaction_manager);\n", ""), ("        let out_commands = transaction_out_commands.chain(store_out_commands).collect();\n", "        let out_commands = transaction_out_commands.chain(store_out_commands).collect();\n        let instant = self.get_context().instant();\n        self.transaction_manager.make_progress(instant);\n        self.key_value_store\n            .make_progress(instant, &mut self.transaction_manager);\n")], {"C50"}),
 ("store responses dropped", A, [("transaction_out_commands.chain(store_out_commands).collect();", "transaction_out_commands.chain(store_out_commands.take(1)).collect();")], {"C50"}),
 ("payload dropped", A, [("                    OutMsg::StoreTabletRequest(store_tablet_request),\n                    payload,", "                    OutMsg::StoreTabletRequest(store_tablet_request),\n                    payload.slice(0..payload.len() / 2 * 2),")], {"C50"}),
 ("undecodable tolerated", A, [("                Err(_) => {\n                    return Err(ActorError::Internal);\n                }\n            };\n\n            match in_header {", "                Err(_) => {\n                    return Ok(CommandOutcome::with_none());\n                }\n            };\n\n            match in_header {")], {"C50"}),
 ("payload undecodable default", A, [("TabletsResponse::decode(command.payload)\n                            .map_err(|_| ActorError::Internal)?;", "TabletsResponse::decode(command.payload).unwrap_or_default();")], {"C50"}),
 ("config default", A, [("            .map_err(|_| ActorError::ConfigLoading)?;", "            .unwrap_or_default();")], {"C50"}),
 # behaviour kept
 ("r: bool or", F, [("tablet_updated |= update && response.is_some();", "if update && response.is_some() {\n                    tablet_updated = true;\n                }")], None),
 ("r: bool oror", F, [("tablet_updated |= update && response.is_some();", "tablet_updated = tablet_updated || (update && response.is_some());")], None),
 ("r: match response", F, [("                if response.is_some() {\n                    results.push((request, response.unwrap()));\n                } else {\n                    tablet_requests.push(request);\n                }", "                match response {\n                    Some(response) => results.push((request, response)),\n                    None => tablet_requests.push(request),\n                }")], None),
 ("r: extend failed", F, [("        for failed_request in failed_requests {\n            self.request_tracker.append_pending_request(failed_request);\n        }", "        failed_requests\n            .into_iter()\n            .for_each(|failed_request| self.request_tracker.append_pending_request(failed_request));")], None),
 ("r: drain waiting", F, [("        for (_, mut requests) in mem::take(&mut self.waiting_processing_requests) {\n            failed_requests.append(&mut requests);\n        }", "        for (_, requests) in self.waiting_processing_requests.drain() {\n            failed_requests.extend(requests);\n        }")], None),
 ("r: cloned value", F, [("value: existing_value.map_or(Bytes::new(), |v| v.clone()),", "value: existing_value.cloned().unwrap_or_default(),")], None),
 ("r: early return", F, [("        if self.pending_requests.len() >= self.min_pending && !self.has_transaction {\n            self.has_transaction = true;\n            let query = create_table_query(table_accessor, &self.pending_requests);\n            self.waiting_processing_requests\n                .insert(query.get_id(), mem::take(&mut self.pending_requests));\n            queries.push(query);\n            true\n        } else {\n            false\n        }", "        if self.has_transaction || self.pending_requests.len() < self.min_pending {\n            return false;\n        }\n        let query = create_table_query(table_accessor, &self.pending_requests);\n        let requests = mem::take(&mut self.pending_requests);\n        self.waiting_processing_requests.insert(query.get_id(), requests);\n        queries.push(query);\n        self.has_transaction = true;\n        true")], None),
 ("r: manual partition", F, [("        let (resolved_requests, waiting_requests): (Vec<_>, Vec<_>) = self\n            .waiting_resolution_requests\n            .remove(&table_query.get_id())\n            .unwrap_or(Vec::new())\n            .into_iter()\n            .partition(|request| {\n                table_query\n                    .get_key_hashes()\n                    .contains(&hash_request_key(table_accessor, request))\n            });\n", "        let mut resolved_requests = Vec::new();\n        let mut waiting_requests = Vec::new();\n        for request in self\n            .waiting_resolution_requests\n            .remove(&table_query.get_id())\n            .unwrap_or_default()\n        {\n            if table_query\n                .get_key_hashes()\n                .contains(&hash_request_key(table_accessor, &request))\n            {\n                resolved_requests.push(request);\n            } else {\n                waiting_requests.push(request);\n            }\n        }\n")], None),
 ("r: completed retain", F, [("        for transaction_id in completed_transactions {\n            self.transaction_trackers.remove(&transaction_id);\n        }", "        for transaction_id in completed_transactions.iter() {\n            self.transaction_trackers.remove(transaction_id);\n        }")], None),
 ("r: actor let else", A, [("            let in_header = match TabletCacheInMessage::decode(command.header.clone()) {\n                Ok(in_message) => in_message.in_msg,\n                Err(_) => {\n                    return Err(ActorError::Internal);\n                }\n            };\n", "            let in_header = TabletCacheInMessage::decode(command.header.clone())\n                .map_err(|_| ActorError::Internal)?\n                .in_msg;\n")], None),
 ("r: actor push loop", A, [("        let out_commands = transaction_out_commands.chain(store_out_commands).collect();\n", "        let mut out_commands: alloc::vec::Vec<ActorCommand> = transaction_out_commands.collect();\n        out_commands.extend(store_out_commands);\n")], None),
 ("r: actor loops", A, [("        let out_commands = transaction_out_commands.chain(store_out_commands).collect();\n", "        let mut out_commands = alloc::vec::Vec::new();\n        for c in transaction_out_commands {\n            out_commands.push(c);\n        }\n        for c in store_out_commands {\n            out_commands.push(c);\n        }\n")], None),
 ("r: actor extract", A, [("            match in_header {\n                Some(oneof) => match oneof {\n                    InMsg::PutKeyRequest(request) => {", "            let Some(oneof) = in_header else {\n                return Err(ActorError::Internal);\n            };\n            match Some(oneof) {\n                Some(oneof) => match oneof {\n                    InMsg::PutKeyRequest(request) => {")], None),
]
