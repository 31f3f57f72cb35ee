F = "apps/tablet_cache/service/src/transaction/coordinator.rs"
T = "apps/tablet_cache/service/src/transaction.rs"
CASES = [
 ("active ignores storing", F, [("TabletProcessStatus::Completed | TabletProcessStatus::Failed => {}\n                _ => return true", "TabletProcessStatus::Completed | TabletProcessStatus::Storing(_) | TabletProcessStatus::Failed => {}\n                _ => return true")], {"C01", "C07"}),
 ("assert dropped", F, [('''assert!(
                    !transaction_state.is_active(),
                    "Cannot commit transaction with pending processing"
                );''', "")], {"C01"}),
 ("complete ignores failed", F, [("if let TabletProcessStatus::Failed = process_state.status {\n                // Fail transaction preparation if any of the processes failed.\n                return PreparingTabletTransactionOutcome::Failed;", "if let TabletProcessStatus::Failed = process_state.status {\n                continue;")], {"C01"}),
 ("only first result checked", F, [("if !op_succeeded {\n                transaction_outcome", "if !op_succeeded && metadata_to_update_cache.is_empty() {\n                transaction_outcome")], {"C02"}),
 ("outcome by last", F, [("if !op_succeeded {\n                transaction_outcome = TabletTransactionOutcome::Failed;\n            }", "transaction_outcome = if op_succeeded { TabletTransactionOutcome::Succeeded } else { TabletTransactionOutcome::Failed };")], {"C02"}),
 ("len check dropped", F, [("if tablet_op_results.len() != self.tablet_ops.len() {", "if tablet_op_results.len() > self.tablet_ops.len() {")], {"C02"}),
 ("conflict flag", F, [("existing_tablet.clone(),\n                                true,", "existing_tablet.clone(),\n                                false,")], {"C03"}),
 ("update despite failure", F, [("} else if all_ops_succeeded {", "} else {")], {"C03"}),
 ("any instead of all", F, [(".all(|r| r.status == TabletOpStatus::Succeeded as i32)", ".any(|r| r.status == TabletOpStatus::Succeeded as i32)")], {"C03"}),
 ("fail status only", F, [("let op_succeeded = tablet_op_result.status == TabletOpStatus::Succeeded as i32;", "let op_succeeded = tablet_op_result.status != TabletOpStatus::Failed as i32;")], {"C02", "C03"}),
 ("store before load err", F, [("Err(_) => {\n                                // Loading failed, switch to failed state.\n                                Some(TabletProcessStatus::Failed)", "Err(_) => {\n                                // Loading failed, switch to failed state.\n                                Some(TabletProcessStatus::Completed)")], {"C04"}),
 ("retry storing", F, [("Err(_) => Some(TabletProcessStatus::Failed),", "Err(_) => None,")], {"C04"}),
 ("skip store", F, [("Some(TabletProcessStatus::Storing(store_result))", "drop(store_result); Some(TabletProcessStatus::Completed)")], {"C04"}),
 ("only first process", F, [("process_state.status = status.unwrap();\n            }", "process_state.status = status.unwrap();\n                break;\n            }")], {"C04"}),
 ("store only last write", F, [("tablet_writes.push(tablet_write);", "tablet_writes.clear(); tablet_writes.push(tablet_write);")], {"C04"}),
 ("key drops version", F, [("(metadata.tablet_id as u64) << 32 | (metadata.tablet_version as u64)", "(metadata.tablet_id as u64) << 16 | (metadata.tablet_version as u64)")], {"C04"}),
 ("dirty not set", T, [("self.is_dirty = true;", "self.is_dirty = self.contents.is_some();")], {"C05"}),
 ("check op for dirty", F, [("let op = if self.tablet.is_dirty() {", "let op = if self.tablet.is_dirty() && self.tablet.updated_contents.is_some() {")], {"C05"}),
 ("dedupe ops", F, [("tablet_ops.push(tablet_state.get_tablet_op());", "let op = tablet_state.get_tablet_op();\n if !tablet_ops.contains(&op) { tablet_ops.push(op); }")], {"C05"}),
 ("only dirty ops", F, [("tablet_ops.push(tablet_state.get_tablet_op());", "if tablet_state.tablet.is_dirty() { tablet_ops.push(tablet_state.get_tablet_op()); }")], {"C05"}),
 ("correlation get", F, [("self.correlations.remove(&correlation_id)", "self.correlations.get(&correlation_id).cloned()")], {"C06", "C02"}),
 ("counter after", F, [("self.correlation_counter += 1;\n\n", ""), (".insert(self.correlation_counter, transaction_id);", ".insert(self.correlation_counter, transaction_id);\n        self.correlation_counter += 1;")], {"C06"}),
 ("counter reset", F, [("mem::take(&mut self.out_messages)", "self.correlation_counter = 0; mem::take(&mut self.out_messages)")], {"C06"}),
 ("aborted applies", F, [("if let TabletTransactionState::Committing(transaction_state) = transaction {", "if let TabletTransactionState::Committing(transaction_state) = transaction {\n metadata_cache.update_tablet(String::new(), TabletMetadata::default(), true);")], {"C03"}),
 ("txid reuse", F, [("self.transaction_counter += 1;\n        let transaction_id = self.transaction_counter;", "self.transaction_counter = self.transactions.len() as u64 + 1;\n        let transaction_id = self.transaction_counter;")], {"C07"}),
 ("abort keeps", F, [("self.transactions.remove(&transaction_id);\n    }\n\n    fn check_transaction_result", "if let Some(TabletTransactionState::Preparing(_)) = self.transactions.get(&transaction_id) { self.transactions.remove(&transaction_id); }\n    }\n\n    fn check_transaction_result")], {"C07"}),
 ("result keeps", F, [("if transaction_outcome.is_some() {\n            self.tr", "if transaction_outcome == Some(TabletTransactionOutcome::Succeeded) {\n            self.tr")], {"C07"}),
 ("handler twice", F, [("Err(_) => {\n                                // Loading failed, switch to failed state.\n                                Some(TabletProcessStatus::Failed)", "Err(_) => {\n (process_state.handler)(self.transaction_id, Vec::new());\n Some(TabletProcessStatus::Failed)")], {"C04"}),
 ("skip unchanged tablets in handler", F, [("tablet_refs.push(tablet_state.tablet_mut());", "if tablet_state.tablet.contents.is_some() { tablet_refs.push(tablet_state.tablet_mut()); }")], {"C04"}),
 # behaviour kept
 ("r: iterator is_active", F, [('''for process_state in &self.process_requests {
            match process_state.status {
                // Process has ended, either successfully or with an error.
                TabletProcessStatus::Completed | TabletProcessStatus::Failed => {}
                _ => return true,
            }
        }
        false''', '''self.process_requests.iter().any(|p| !matches!(p.status, TabletProcessStatus::Completed | TabletProcessStatus::Failed))''')], None),
 ("r: iterator complete", F, [('''for process_state in &self.process_requests {
            if let TabletProcessStatus::Failed = process_state.status {
                // Fail transaction preparation if any of the processes failed.
                return PreparingTabletTransactionOutcome::Failed;
            }

            for tablet_state in process_state.tablets.values() {
                // For each of the affected tablets generate corresponding tablet op.
                tablet_ops.push(tablet_state.get_tablet_op());
            }
        }''', '''if self.process_requests.iter().any(|p| matches!(p.status, TabletProcessStatus::Failed)) { return PreparingTabletTransactionOutcome::Failed; }
        for process_state in self.process_requests.iter() {
            tablet_ops.extend(process_state.tablets.values().map(|t| t.get_tablet_op()));
        }''')], None),
 ("r: flag complete", F, [("let mut tablet_ops = Vec::new();\n\n        for process_state in &self.process_requests {", "let mut tablet_ops = Vec::new();\n let mut failed = false;\n        for process_state in &self.process_requests {"),
    ("return PreparingTabletTransactionOutcome::Failed;\n            }", "failed = true; continue;\n            }"), ("// Succeed transaction preparation with corresponding", "if failed { return PreparingTabletTransactionOutcome::Failed; }\n//")], None),
 ("r: collect metadata", F, [('''let mut resolved_metadata =
                                    Vec::with_capacity(resolve_values.len());
''', "let resolved_metadata: Vec<_> = resolve_values.iter().map(|(_, m)| m.clone()).collect();"), ("resolved_metadata.push(metadata);", "")], None),
 ("r: guard style", F, [('''let transaction = self.transactions.get_mut(&transaction_id).unwrap();
        match transaction {
            TabletTransactionState::Preparing(transaction_state) => {
                // Initiate a new tablet processing, which starts in pending state.
                transaction_state.init_pending(queries, handler);
            }
            _ => panic!("Cannot alter transaction after commit has been initiated"),
        }''', '''if let Some(TabletTransactionState::Preparing(state)) = self.transactions.get_mut(&transaction_id) {
            state.init_pending(queries, handler);
        } else { panic!("no"); }''')], None),
 ("r: early return response", F, [('''if let Some(transaction) = self.transactions.get_mut(&transaction_id) {
                        if let TabletTransactionState::Committing(transaction_state) = transaction {''', '''let Some(transaction) = self.transactions.get_mut(&transaction_id) else { return; };
                    {
                        if let TabletTransactionState::Committing(transaction_state) = transaction {''')], None),
 ("r: helper stash inline", F, [("self.transaction_stash_request(transaction_id, tablet_ops.clone());", '''let id = self.correlation_counter + 1; self.correlation_counter = id;
   self.correlations.insert(id, transaction_id);
   self.out_messages.push(TabletTransactionCoordinatorOutMessage::ExecuteTabletOpsRequest(id, tablet_ops.clone()));''')], None),
 ("r: outcome computed once", F, [("let mut transaction_outcome = TabletTransactionOutcome::Succeeded;\n        if tablet_op_results.len() != self.tablet_ops.len() {\n            // Every tablet op must have been confirmed.\n            transaction_outcome = TabletTransactionOutcome::Failed;\n        }", ""),
   ("if !op_succeeded {\n                transaction_outcome = TabletTransactionOutcome::Failed;\n            }", ""), ("(transaction_outcome, metadata_to_update_cache)\n    }\n}", '''let transaction_outcome = if all_ops_succeeded && tablet_op_results.len() == self.tablet_ops.len() { TabletTransactionOutcome::Succeeded } else { TabletTransactionOutcome::Failed };
        (transaction_outcome, metadata_to_update_cache)
    }
}''')], None),
 ("r: try_from status", F, [("let op_succeeded = tablet_op_result.status == TabletOpStatus::Succeeded as i32;", "let op_succeeded = matches!(TabletOpStatus::try_from(tablet_op_result.status), Ok(TabletOpStatus::Succeeded));")], None),
 ("r: remove on result", F, [('''// Clean up transaction state once the outcome is determined.
        if transaction_outcome.is_some() {
            self.transactions.remove(&transaction_id);
        }''', '''match transaction_outcome { Some(_) => { self.transactions.remove(&transaction_id); } None => {} }''')], None),
 ("r: while loop", F, [('''for process_state in &self.process_requests {
            match process_state.status {
                // Process has ended, either successfully or with an error.
                TabletProcessStatus::Completed | TabletProcessStatus::Failed => {}
                _ => return true,
            }
        }
        false''', '''let mut it = self.process_requests.iter();
        while let Some(process_state) = it.next() {
            match process_state.status {
                TabletProcessStatus::Completed | TabletProcessStatus::Failed => continue,
                _ => return true,
            }
        }
        false''')], None),
 ("r: index loop", F, [('''for process_state in &self.process_requests {
            match process_state.status {
                // Process has ended, either successfully or with an error.
                TabletProcessStatus::Completed | TabletProcessStatus::Failed => {}
                _ => return true,
            }
        }
        false''', '''for i in 0..self.process_requests.len() {
            match self.process_requests[i].status {
                TabletProcessStatus::Completed | TabletProcessStatus::Failed => {}
                _ => return true,
            }
        }
        false''')], None),
]
