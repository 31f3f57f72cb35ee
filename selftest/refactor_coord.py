"""Further behaviour-preserving rewrites of the transaction coordinator: every check must stay quiet."""
F = "apps/tablet_cache/service/src/transaction/coordinator.rs"
CASES = [
 # one method per stage of a process
 ("x: stage methods", F, [('''            let status = match &mut process_state.status {
                TabletProcessStatus::Pending(process_queries) => {
                    // Initiate affected tablets resolution and switch to resolve result resolving state
                    // waiting for completion.
                    let resolve_result = metadata_cache.resolve_tablets(process_queries);
                    Some(TabletProcessStatus::Resolving(resolve_result))
                }
''', '''            let status = match &mut process_state.status {
                TabletProcessStatus::Pending(process_queries) => {
                    Self::begin_resolving(metadata_cache, process_queries)
                }
'''), ('''                TabletProcessStatus::Storing(store_result) => {
                    if let Some(store_outcome) = store_result.check_result() {
                        // Storing has completed, move to completed or failed state depending on the outcome.
                        match store_outcome {
                            Ok(_) => Some(TabletProcessStatus::Completed),
                            Err(_) => Some(TabletProcessStatus::Failed),
                        }
                    } else {
                        // Storing hasn't completed, stay in storing state.
                        None
                    }
                }
                TabletProcessStatus::Completed => None,
                TabletProcessStatus::Failed => None,
''', '''                TabletProcessStatus::Storing(store_result) => Self::check_stored(store_result),
                TabletProcessStatus::Completed | TabletProcessStatus::Failed => None,
'''), ('''    fn init_pending(&mut self,''', '''    fn begin_resolving(metadata_cache: &mut dyn TabletMetadataCache, queries: &Vec<TableQuery>) -> Option<TabletProcessStatus<T>> {
        Some(TabletProcessStatus::Resolving(metadata_cache.resolve_tablets(queries)))
    }

    fn check_stored(store_result: &mut ResultHandle<(), TabletDataStorageStatus>) -> Option<TabletProcessStatus<T>> {
        let outcome = store_result.check_result()?;
        Some(if outcome.is_ok() { TabletProcessStatus::Completed } else { TabletProcessStatus::Failed })
    }

    fn init_pending(&mut self,''')], None),
 ("x: stored map", F, [('''                    if let Some(store_outcome) = store_result.check_result() {
                        // Storing has completed, move to completed or failed state depending on the outcome.
                        match store_outcome {
                            Ok(_) => Some(TabletProcessStatus::Completed),
                            Err(_) => Some(TabletProcessStatus::Failed),
                        }
                    } else {
                        // Storing hasn't completed, stay in storing state.
                        None
                    }
''', '''                    store_result.check_result().map(|store_outcome| match store_outcome {
                        Ok(()) => TabletProcessStatus::Completed,
                        Err(_) => TabletProcessStatus::Failed,
                    })
''')], None),
 ("x: resolved method", F, [('''                            Ok(resolve_values) => {
                                let mut resolved_metadata =
                                    Vec::with_capacity(resolve_values.len());

                                for (query, metadata) in resolve_values {
                                    // Start tracking state of the affected tablet.
                                    process_state.tablets.insert(
                                        create_tablet_key(&metadata),
                                        TabletState::create(query, metadata.clone()),
                                    );
                                    resolved_metadata.push(metadata);
                                }
                                // Initiate''', '''                            Ok(resolve_values) => {
                                let resolved_metadata = track_resolved(&mut process_state.tablets, resolve_values);
                                // Initiate'''), ('''// Creates tablet key that consists of tablet id and its version.
''', '''fn track_resolved<T>(tablets: &mut HashMap<u64, TabletState<T>>, resolve_values: Vec<(TableQuery, TabletMetadata)>) -> Vec<TabletMetadata> {
    let mut resolved_metadata = Vec::with_capacity(resolve_values.len());
    for (query, metadata) in resolve_values {
        resolved_metadata.push(metadata.clone());
        let tablet_key = create_tablet_key(&metadata);
        tablets.insert(tablet_key, TabletState::create(query, metadata));
    }
    resolved_metadata
}

// Creates tablet key that consists of tablet id and its version.
''')], None),
 ("x: refs collected", F, [('''                                let mut tablet_refs = Vec::with_capacity(load_values.len());

                                for (metadata''', '''                                for (metadata'''), ('''                                for tablet_state in process_state.tablets.values_mut() {
                                    tablet_refs.push(tablet_state.tablet_mut());
                                }
''', '''                                let tablet_refs: Vec<_> = process_state
                                    .tablets
                                    .values_mut()
                                    .map(|tablet_state| tablet_state.tablet_mut())
                                    .collect();
''')], None),
 ("x: writes collected", F, [('''                                let mut tablet_writes = Vec::new();

                                // Collect which tablets needs to be stored in Tablet Data Storage.
                                for tablet_state in process_state.tablets.values_mut() {
                                    if let Some(tablet_write) = tablet_state.tablet_prepare() {
                                        tablet_writes.push(tablet_write);
                                    }
                                }
''', '''                                let tablet_writes = process_state
                                    .tablets
                                    .values_mut()
                                    .filter_map(TabletState::tablet_prepare)
                                    .collect();
''')], None),
 ("x: writes extend", F, [('''                                for tablet_state in process_state.tablets.values_mut() {
                                    if let Some(tablet_write) = tablet_state.tablet_prepare() {
                                        tablet_writes.push(tablet_write);
                                    }
                                }
''', '''                                for (_, tablet_state) in process_state.tablets.iter_mut() {
                                    tablet_writes.extend(tablet_state.tablet_prepare());
                                }
''')], None),
 ("x: switch if let", F, [('''            if status.is_some() {
                process_state.status = status.unwrap();
            }
''', '''            if let Some(next_status) = status {
                process_state.status = next_status;
            }
''')], None),
 ("x: outcomes as result", F, [('''                    if let Some(resolve_outcome) = resolve_result.check_result() {
                        // Resolve has completed, move to loading or failed state depending on the
                        // resolve outcome.
                        match resolve_outcome {
                            Ok(resolve_values) => {''', '''                    match resolve_result.check_result() {
                            Some(Ok(resolve_values)) => {'''), ('''                            Err(_) => {
                                // Resolving failed, switch to failed state.
                                Some(TabletProcessStatus::Failed)
                            }
                        }
                    } else {
                        // Resolving hasn't completed, stay in resolving state.
                        None
                    }
''', '''                            Some(Err(_)) => {
                                // Resolving failed, switch to failed state.
                                Some(TabletProcessStatus::Failed)
                            }
                            None => None,
                    }
''')], None),
 ("x: load let else", F, [('''                    if let Some(load_outcome) = load_result.check_result() {
                        // Load has completed, move to storing or failed state depending on the
                        // load outcome.
                        match load_outcome {''', '''                    let Some(load_outcome) = load_result.check_result() else { continue; };
                    {
                        match load_outcome {'''), ('''                    } else {
                        // Loading hasn't completed, stay in loading state.
                        None
                    }
''', '''                    }
''')], None),
 ("x: op split", F, [('''        let op = if self.tablet.is_dirty() {
            // Tablet has been written, therefore the metadata has already been
            // updated to the new version.
            tablet_op::Op::UpdateTablet(UpdateTabletOp {
                tablet_metadata: Some(tablet_metadata),
            })
        } else {
            // Tablet has been read, generate op that ensures that the tablet
            // hasn't changed since.
            tablet_op::Op::CheckTablet(CheckTabletOp {
                tablet_id: tablet_metadata.tablet_id,
                tablet_version: tablet_metadata.tablet_version,
            })
        };
''', '''        let op = match self.tablet.is_dirty() {
            true => update_op(tablet_metadata),
            false => check_op(&tablet_metadata),
        };
'''), ('''// Tracks state of a tablet affected by a transaction.
''', '''fn update_op(tablet_metadata: TabletMetadata) -> tablet_op::Op {
    tablet_op::Op::UpdateTablet(UpdateTabletOp { tablet_metadata: Some(tablet_metadata) })
}

fn check_op(metadata: &TabletMetadata) -> tablet_op::Op {
    let TabletMetadata { tablet_id, tablet_version, .. } = *metadata;
    tablet_op::Op::CheckTablet(CheckTabletOp { tablet_id, tablet_version })
}

// Tracks state of a tablet affected by a transaction.
''')], None),
 ("x: op early return", F, [('''        let tablet_metadata = self.tablet.get_metadata().clone();
        let op = if self.tablet.is_dirty() {
            // Tablet has been written, therefore the metadata has already been
            // updated to the new version.
            tablet_op::Op::UpdateTablet(UpdateTabletOp {
                tablet_metadata: Some(tablet_metadata),
            })
        } else {
''', '''        let tablet_metadata = self.tablet.get_metadata();
        let table_name = self.query.get_table_name().clone();
        if self.tablet.is_dirty() {
            let mut update = UpdateTabletOp::default();
            update.tablet_metadata = Some(tablet_metadata.clone());
            return TabletOp { table_name, op: Some(tablet_op::Op::UpdateTablet(update)) };
        }
        let op = {
'''), ('''        TabletOp {
            table_name: self.query.get_table_name().clone(),
            op: Some(op),
        }
''', '''        TabletOp {
            table_name,
            op: Some(op),
        }
''')], None),
 ("x: prepare map", F, [('''        if let Some(updated_contents) = self.tablet.take_updated_contents() {
            Some((self.tablet.get_metadata_mut(), updated_contents))
        } else {
            None
        }
''', '''        let updated_contents = self.tablet.take_updated_contents()?;
        Some((self.tablet.get_metadata_mut(), updated_contents))
''')], None),
 ("x: metadata updates helper", F, [('''                    if !op_succeeded {
                        // Existing tablet is not known if the request itself has failed.
                        if let Some(existing_tablet) = &check_tablet_op_result.existing_tablet {
                            metadata_to_update_cache.push((
                                tablet_op.table_name.clone(),
                                existing_tablet.clone(),
                                true,
                            ));
                        }
                    }
''', '''                    if !op_succeeded {
                        push_existing(&mut metadata_to_update_cache, tablet_op, &check_tablet_op_result.existing_tablet);
                    }
'''), ('''                    if !op_succeeded {
                        // Existing tablet is not known if the request itself has failed.
                        if let Some(existing_tablet) = &update_tablet_op_result.existing_tablet {
                            metadata_to_update_cache.push((
                                tablet_op.table_name.clone(),
                                existing_tablet.clone(),
                                true,
                            ));
                        }
                    } else''', '''                    if !op_succeeded {
                        push_existing(&mut metadata_to_update_cache, tablet_op, &update_tablet_op_result.existing_tablet);
                    } else'''), ('''// Creates tablet key that consists of tablet id and its version.
''', '''fn push_existing(updates: &mut Vec<(String, TabletMetadata, bool)>, tablet_op: &TabletOp, existing: &Option<TabletMetadata>) {
    if let Some(metadata) = existing.as_ref() {
        updates.push((tablet_op.table_name.clone(), metadata.clone(), true));
    }
}

// Creates tablet key that consists of tablet id and its version.
''')], None),
 ("x: existing tablet first", F, [('''        for (tablet_op, tablet_op_result) in self.tablet_ops.iter().zip(tablet_op_results.iter()) {
            let op_succeeded''', '''        for (op_index, tablet_op) in self.tablet_ops.iter().enumerate() {
            if op_index >= tablet_op_results.len() {
                break;
            }
            let tablet_op_result = &tablet_op_results[op_index];
            let op_succeeded''')], None),
 ("x: all ops loop", F, [('''        let all_ops_succeeded = tablet_op_results
            .iter()
            .all(|r| r.status == TabletOpStatus::Succeeded as i32);
''', '''        let mut all_ops_succeeded = true;
        for result in &tablet_op_results {
            if result.status != TabletOpStatus::Succeeded as i32 {
                all_ops_succeeded = false;
                break;
            }
        }
''')], None),
 ("x: any failed", F, [('''        let all_ops_succeeded = tablet_op_results
            .iter()
            .all(|r| r.status == TabletOpStatus::Succeeded as i32);
''', '''        let all_ops_succeeded = !tablet_op_results
            .iter()
            .any(|r| r.status != TabletOpStatus::Succeeded as i32);
''')], None),
 ("x: outcome at the end", F, [('''        let mut transaction_outcome = TabletTransactionOutcome::Succeeded;
        if tablet_op_results.len() != self.tablet_ops.len() {
            // Every tablet op must have been confirmed.
            transaction_outcome = TabletTransactionOutcome::Failed;
        }
''', ''), ('''            if !op_succeeded {
                transaction_outcome = TabletTransactionOutcome::Failed;
            }
            match''', '''            match'''), ('''        (transaction_outcome, metadata_to_update_cache)
''', '''        let transaction_outcome = if all_ops_succeeded && tablet_op_results.len() == self.tablet_ops.len() {
            TabletTransactionOutcome::Succeeded
        } else {
            TabletTransactionOutcome::Failed
        };
        (transaction_outcome, metadata_to_update_cache)
''')], None),
 ("x: commit by value", F, [('''        let transaction = self.transactions.get(&transaction_id).unwrap();
        // Generate new transaction state which can be committing or failed.
        let updated_transaction = match transaction {
            TabletTransactionState::Preparing(transaction_state) => {''', '''        let outcome = match self.transactions.get(&transaction_id).unwrap() {
            TabletTransactionState::Preparing(transaction_state) => {'''), ('''                match transaction_state.complete() {
                    // Try to commit transaction if all processing succeeded.
                    PreparingTabletTransactionOutcome::Succeeded(tablet_ops) => {
                        // Stash outgoing message to commit transaction to the Tablet Store.
                        self.transaction_stash_request(transaction_id, tablet_ops.clone());
                        // Wait for the outcome.
                        TabletTransactionState::Committing(
                            CommittingTabletTransactionState::create(tablet_ops),
                        )
                    }
                    // Fail transaction if any of the processing failed.
                    PreparingTabletTransactionOutcome::Failed => {
                        TabletTransactionState::Completed(TabletTransactionOutcome::Failed)
                    }
                }
            }
            _ => panic!("Cannot commit transaction after commit has been initiated"),
        };
''', '''                transaction_state.complete()
            }
            _ => panic!("Cannot commit transaction after commit has been initiated"),
        };
        let updated_transaction = match outcome {
            PreparingTabletTransactionOutcome::Succeeded(tablet_ops) => {
                self.transaction_stash_request(transaction_id, tablet_ops.clone());
                TabletTransactionState::Committing(CommittingTabletTransactionState { tablet_ops })
            }
            PreparingTabletTransactionOutcome::Failed => {
                TabletTransactionState::Completed(TabletTransactionOutcome::Failed)
            }
        };
''')], None),
 ("x: commit assignment", F, [('''        self.transactions
            .insert(transaction_id, updated_transaction);
    }
''', '''        *self.transactions.get_mut(&transaction_id).unwrap() = updated_transaction;
    }
''')], None),
 ("x: commit entry", F, [('''        self.transactions
            .insert(transaction_id, updated_transaction);
    }
''', '''        if let Some(state) = self.transactions.get_mut(&transaction_id) {
            *state = updated_transaction;
        }
    }
''')], None),
 ("x: result direct", F, [('''        // Clean up transaction state once the outcome is determined.
        if transaction_outcome.is_some() {
            self.transactions.remove(&transaction_id);
        }

        // Outcome will be stored in the transaction commit object and owned
        // by the transaction creator.
        transaction_outcome
''', '''        let transaction_outcome = transaction_outcome?;
        self.transactions.remove(&transaction_id);
        Some(transaction_outcome)
''')], None),
 ("x: response and_then", F, [('''                if let Some(transaction_id) = self.correlations.remove(&correlation_id) {
                    // Transaction may be aborted before execute ops response is received therefore
                    // we need to check that transaction is still waiting trying to commit.
                    if let Some(transaction) = self.transactions.get_mut(&transaction_id) {
                        if let TabletTransactionState::Committing(transaction_state) = transaction {
                            let (transaction_outcome, metadata_to_update_cache) =
                                transaction_state.complete(tablet_op_results);
                            *transaction = TabletTransactionState::Completed(transaction_outcome);

                            for (table_name, tablet_metadata, conflict) in metadata_to_update_cache
                            {
                                metadata_cache.update_tablet(table_name, tablet_metadata, conflict);
                            }
                        }
                    }
                }
''', '''                let transaction = self
                    .correlations
                    .remove(&correlation_id)
                    .and_then(|transaction_id| self.transactions.get_mut(&transaction_id));
                if let Some(transaction) = transaction {
                    let completed = match transaction {
                        TabletTransactionState::Committing(state) => Some(state.complete(tablet_op_results)),
                        _ => None,
                    };
                    if let Some((outcome, updates)) = completed {
                        *transaction = TabletTransactionState::Completed(outcome);
                        updates.into_iter().for_each(|(table_name, tablet_metadata, conflict)| {
                            metadata_cache.update_tablet(table_name, tablet_metadata, conflict)
                        });
                    }
                }
''')], None),
 ("x: progress if let", F, [('''        for transaction in self.transactions.values_mut() {
            match transaction {
                // Make progress on each pending transaction.
                TabletTransactionState::Preparing(transaction_state) => {
                    transaction_state.make_progress(instant, metadata_cache, data_cache);
                }
                // Do nothing for committing or completed transaction.
                _ => {}
            }
        }
''', '''        for (_, transaction) in self.transactions.iter_mut() {
            if let TabletTransactionState::Preparing(preparing) = transaction {
                preparing.make_progress(instant, metadata_cache, data_cache);
            }
        }
''')], None),
 ("x: progress filter", F, [('''        for transaction in self.transactions.values_mut() {
            match transaction {
                // Make progress on each pending transaction.
                TabletTransactionState::Preparing(transaction_state) => {
                    transaction_state.make_progress(instant, metadata_cache, data_cache);
                }
                // Do nothing for committing or completed transaction.
                _ => {}
            }
        }
''', '''        let preparing = self.transactions.values_mut().filter_map(|transaction| match transaction {
            TabletTransactionState::Preparing(state) => Some(state),
            _ => None,
        });
        for state in preparing {
            state.make_progress(instant, metadata_cache, data_cache);
        }
''')], None),
 ("x: stash ids", F, [('''        self.correlation_counter += 1;

        self.out_messages.push(
            TabletTransactionCoordinatorOutMessage::ExecuteTabletOpsRequest(
                self.correlation_counter,
                tablet_ops,
            ),
        );
        // Map execute tablet ops request to the transaction id, so that response can later
        // be correlated.
        self.correlations
            .insert(self.correlation_counter, transaction_id);
''', '''        let correlation_id = self.next_correlation_id();
        self.correlations.insert(correlation_id, transaction_id);
        let request = TabletTransactionCoordinatorOutMessage::ExecuteTabletOpsRequest(correlation_id, tablet_ops);
        self.out_messages.push(request);
'''), ('''    fn transaction_stash_request(''', '''    fn next_correlation_id(&mut self) -> u64 {
        self.correlation_counter += 1;
        self.correlation_counter
    }

    fn transaction_stash_request(''')], None),
 ("x: create state literal", F, [('''            TabletTransactionState::Preparing(PreparingTabletTransactionState::create(
                transaction_id,
            )),
''', '''            TabletTransactionState::Preparing(PreparingTabletTransactionState {
                transaction_id,
                process_requests: vec![],
            }),
''')], None),
 ("x: accessor helper", F, [('''        let transaction = self.transactions.get_mut(&transaction_id).unwrap();
        match transaction {
            TabletTransactionState::Preparing(transaction_state) => {
                // Initiate''', '''        match self.transaction_mut(transaction_id) {
            TabletTransactionState::Preparing(transaction_state) => {
                // Initiate'''), ('''    fn transaction_stash_request(''', '''    fn transaction_mut(&mut self, transaction_id: u64) -> &mut TabletTransactionState<T> {
        self.transactions.get_mut(&transaction_id).expect("unknown transaction")
    }

    fn transaction_stash_request(''')], None),
 ("x: active all", F, [('''        for process_state in &self.process_requests {
            match process_state.status {
                // Process has ended, either successfully or with an error.
                TabletProcessStatus::Completed | TabletProcessStatus::Failed => {}
                _ => return true,
            }
        }
        false
''', '''        !self.process_requests.iter().all(|process_state| process_state.status.has_ended())
'''), ('''struct TabletProcessState<T> {
''', '''impl<T> TabletProcessStatus<T> {
    fn has_ended(&self) -> bool {
        matches!(self, TabletProcessStatus::Completed | TabletProcessStatus::Failed)
    }
}

struct TabletProcessState<T> {
''')], None),
 ("x: complete two passes", F, [('''        let mut tablet_ops = Vec::new();

        for process_state in &self.process_requests {
            if let TabletProcessStatus::Failed = process_state.status {
                // Fail transaction preparation if any of the processes failed.
                return PreparingTabletTransactionOutcome::Failed;
            }

            for tablet_state in process_state.tablets.values() {
                // For each of the affected tablets generate corresponding tablet op.
                tablet_ops.push(tablet_state.get_tablet_op());
            }
        }
''', '''        let has_failed = self
            .process_requests
            .iter()
            .any(|process_state| matches!(process_state.status, TabletProcessStatus::Failed));
        if has_failed {
            return PreparingTabletTransactionOutcome::Failed;
        }

        let tablet_ops = self
            .process_requests
            .iter()
            .flat_map(|process_state| process_state.tablets.values())
            .map(|tablet_state| tablet_state.get_tablet_op())
            .collect();
''')], None),
 ("x: reordered init", F, [('''        self.process_requests.push(TabletProcessState {
            status: TabletProcessStatus::Pending(queries),
            handler,
            tablets: HashMap::new(),
        });
''', '''        let process_state = TabletProcessState { tablets: HashMap::new(), handler, status: TabletProcessStatus::Pending(queries) };
        self.process_requests.push(process_state);
''')], None),
 ("x: key widened", F, [('''    (metadata.tablet_id as u64) << 32 | (metadata.tablet_version as u64)
''', '''    let tablet_id = u64::from(metadata.tablet_id);
    let tablet_version = u64::from(metadata.tablet_version);
    (tablet_id << 32) | tablet_version
''')], None),
 ("x: key tuple", F, [('''fn create_tablet_key(metadata: &TabletMetadata) -> u64 {
    (metadata.tablet_id as u64) << 32 | (metadata.tablet_version as u64)
}''', '''fn create_tablet_key(metadata: &TabletMetadata) -> (u32, u32) {
    (metadata.tablet_id, metadata.tablet_version)
}'''), ("tablets: HashMap<u64, TabletState<T>>", "tablets: HashMap<(u32, u32), TabletState<T>>")], None),
]
