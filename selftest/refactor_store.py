"""Behaviour-preserving rewrites of the key value store, the actor, the eventual results and the
transaction types: every check must stay quiet."""
D = "apps/tablet_cache/service/src/"
S, A, R, T = D + "store.rs", D + "actor.rs", D + "transaction/result.rs", D + "transaction.rs"
CQ = '''        let mut queries = Vec::new();

        if self.pending_requests.len() >= self.min_pending {
            let query = create_table_query(table_accessor, &self.pending_requests);
            self.waiting_resolution_requests
                .insert(query.get_id(), mem::take(&mut self.pending_requests));
            queries.push(query);
        }

        queries
'''
TR = '''        let (resolved_requests, waiting_requests): (Vec<_>, Vec<_>) = self
            .waiting_resolution_requests
            .remove(&table_query.get_id())
            .unwrap_or(Vec::new())
            .into_iter()
            .partition(|request| {
                table_query
                    .get_key_hashes()
                    .contains(&hash_request_key(table_accessor, request))
            });
        if !waiting_requests.is_empty() {
            self.waiting_resolution_requests
                .insert(table_query.get_id(), waiting_requests);
        }
        resolved_requests
'''
CP = '''        if self.pending_requests.len() >= self.min_pending && !self.has_transaction {
            self.has_transaction = true;
            let query = create_table_query(table_accessor, &self.pending_requests);
            self.waiting_processing_requests
                .insert(query.get_id(), mem::take(&mut self.pending_requests));
            queries.push(query);
            true
        } else {
            false
        }
'''
FIN = '''        for tablet_id in affected_tablet_ids {
            if let Some(tablet_tracker) = self.tablet_trackers.get_mut(&tablet_id) {
                tablet_tracker.complete_transaction(&mut failed_requests);
            }
        }
'''
COLL = '''        for (transaction_id, transaction_tracker) in &mut self.transaction_trackers {
            if transaction_tracker.maybe_finalize_transaction(
                &mut affected_tablet_ids,
                &mut failed_requests,
                &mut self.responses,
            ) {
                completed_transactions.push(*transaction_id);
            }
        }
'''
RES = '''                if response.is_some() {
                    results.push((request, response.unwrap()));
                } else {
                    tablet_requests.push(request);
                }
'''
UPD = '''                tablet_updated |= update && response.is_some();
'''
PUT = '''        let key_hash = table_accessor.hash_key(&put_request.key);
        if table_query.get_key_hashes().contains(&key_hash) {
            let existing_value = tablet_contents
                .dictionary
                .insert(put_request.key.clone(), put_request.value.clone());
            Some(KeyValueResponse::Put(
                correlation_id,
                PutKeyResponse {
                    existed: existing_value.is_some(),
                },
            ))
        } else {
            None
        }
'''
GET = '''        let key_hash = table_accessor.hash_key(&get_request.key);
        if table_query.get_key_hashes().contains(&key_hash) {
            let existing_value = tablet_contents.dictionary.get(&get_request.key);
            Some(KeyValueResponse::Get(
                correlation_id,
                GetKeyResponse {
                    existed: existing_value.is_some(),
                    value: existing_value.map_or(Bytes::new(), |v| v.clone()),
                },
            ))
        } else {
            None
        }
'''
EX = '''                    existed: existing_value.is_some(),
                    value: existing_value.map_or(Bytes::new(), |v| v.clone()),
'''
COMPL = '''        for (_, mut requests) in mem::take(&mut self.waiting_processing_requests) {
            failed_requests.append(&mut requests);
        }
'''
APR = '''        for (request, response) in results {
            self.requests.push(request);
            self.responses.push(response);
        }
'''
COMMIT = '''        if self.waiting_commit.is_none()
            && self
                .transaction
                .as_ref()
                .is_some_and(|t| !t.has_pending_process())
        {
            let transaction = mem::take(&mut self.transaction).unwrap();
            self.waiting_commit = Some(transaction.commit());
        }
'''
FT = '''        if let Some(transaction_outcome) =
            self.waiting_commit.as_mut().and_then(|c| c.check_result())
        {
            match transaction_outcome {
                transaction::TabletTransactionOutcome::Succeeded => {
                    succeeded_responses.append(&mut self.responses)
                }
                transaction::TabletTransactionOutcome::Failed => {
                    failed_requests.append(&mut self.requests)
                }
            }
            affected_tablet_ids.append(&mut self.tablet_ids);
            true
        } else {
            false
        }
'''
QRY = '''    let mut hashes = Vec::new();

    for request in requests {
        hashes.push(hash_request_key(table_accessor, request));
    }

    transaction::TableQuery::create(
        table_accessor.get_next_id(),
        table_accessor.get_name().clone(),
        hashes,
    )
'''
START = '''        for (tablet_id, tablet_tracker) in &mut self.tablet_trackers {
            if tablet_tracker.collect_process_queries(&mut self.table_accessor, &mut queries) {
                tablet_ids.push(*tablet_id);
            }
        }
'''
HR = '''            let tablet_tracker = self
                .tablet_trackers
                .entry(tablet_descriptor.get_id())
                .or_insert(TabletTracker::create(
                    self.config.min_pending_before_process.try_into().unwrap(),
                ));
            // Move resolved requests as pending to the tablet they affect.
            tablet_tracker.append_pending_requests(
                self.request_tracker
                    .take_resolved_requests(&self.table_accessor, &table_query),
            );
'''
HQ = '''        if let Some(transaction_tracker) = self.transaction_trackers.get_mut(&transaction_id) {
            // For each table query and corresponding tablet
            for (table_query, mut tablet) in results {
                if let Some(tablet_tracker) = self.tablet_trackers.get_mut(&tablet.get_id()) {
                    transaction_tracker.append_process_results(tablet_tracker.process_table_query(
                        &self.table_accessor,
                        &table_query,
                        &mut tablet,
                    ));
                }
            }
        }
'''
DEC = '''            let in_header = match TabletCacheInMessage::decode(command.header.clone()) {
                Ok(in_message) => in_message.in_msg,
                Err(_) => {
                    return Err(ActorError::Internal);
                }
            };
'''
CHK = '''        let core = self.core.borrow_mut();
        if core.result.is_some() {
            Some(Ok(core.result.as_ref().unwrap().clone()))
        } else if core.error.is_some() {
            Some(Err(core.error.as_ref().unwrap().clone()))
        } else {
            None
        }
'''
CASES = [
 # --- request tracker
 ("s: collect early return", S, [(CQ, '''        if self.pending_requests.len() < self.min_pending {
            return Vec::new();
        }
        let requests = mem::take(&mut self.pending_requests);
        let query = create_table_query(table_accessor, &requests);
        self.waiting_resolution_requests.insert(query.get_id(), requests);
        Vec::from([query])
''')], None),
 ("s: collect negated", S, [(CQ, '''        if !(self.pending_requests.len() >= self.min_pending) {
            Vec::new()
        } else {
            let query = create_table_query(table_accessor, &self.pending_requests);
            let query_id = query.get_id();
            let requests = core::mem::replace(&mut self.pending_requests, Vec::new());
            self.waiting_resolution_requests.insert(query_id, requests);
            let mut queries = Vec::with_capacity(1);
            queries.push(query);
            queries
        }
''')], None),
 ("s: collect drain", S, [(CQ, '''        let mut queries = Vec::new();
        if self.min_pending <= self.pending_requests.len() {
            let query = create_table_query(table_accessor, &self.pending_requests);
            let requests = self.pending_requests.drain(..).collect();
            self.waiting_resolution_requests.insert(query.get_id(), requests);
            queries.push(query);
        }
        queries
''')], None),
 ("s: take resolved loop", S, [(TR, '''        let mut resolved_requests = Vec::new();
        let mut waiting_requests = Vec::new();
        if let Some(requests) = self
            .waiting_resolution_requests
            .remove(&table_query.get_id())
        {
            for request in requests {
                let key_hash = hash_request_key(table_accessor, &request);
                if table_query.get_key_hashes().contains(&key_hash) {
                    resolved_requests.push(request);
                } else {
                    waiting_requests.push(request);
                }
            }
        }
        if !waiting_requests.is_empty() {
            self.waiting_resolution_requests
                .insert(table_query.get_id(), waiting_requests);
        }
        resolved_requests
''')], None),
 ("s: take resolved default", S, [('''            .unwrap_or(Vec::new())
            .into_iter()
            .partition''', '''            .unwrap_or_default()
            .into_iter()
            .partition''')], None),
 ("s: take resolved helper", S, [(TR, '''        let query_id = table_query.get_id();
        let requests = match self.waiting_resolution_requests.remove(&query_id) {
            Some(requests) => requests,
            None => return Vec::new(),
        };
        let (covered, rest) = Self::split_covered(table_accessor, table_query, requests);
        if !rest.is_empty() {
            self.waiting_resolution_requests.insert(query_id, rest);
        }
        covered
    }

    fn split_covered(
        table_accessor: &TableAccessor,
        table_query: &transaction::TableQuery,
        requests: Vec<KeyValueRequest>,
    ) -> (Vec<KeyValueRequest>, Vec<KeyValueRequest>) {
        let key_hashes = table_query.get_key_hashes();
        requests
            .into_iter()
            .partition(|request| key_hashes.contains(&hash_request_key(table_accessor, request)))
''')], None),
 ("s: append push extend", S, [('''    fn append_pending_requests(&mut self, mut requests: Vec<KeyValueRequest>) {
        // Stash request until enough have accumulated or current transaction
        // has completed.
        self.pending_requests.append(&mut requests)
''', '''    fn append_pending_requests(&mut self, requests: Vec<KeyValueRequest>) {
        self.pending_requests.extend(requests);
''')], None),
 # --- tablet tracker
 ("s: collect process guard", S, [(CP, '''        if self.has_transaction || self.pending_requests.len() < self.min_pending {
            return false;
        }
        let requests = mem::take(&mut self.pending_requests);
        let query = create_table_query(table_accessor, &requests);
        self.waiting_processing_requests.insert(query.get_id(), requests);
        queries.push(query);
        self.has_transaction = true;
        true
''')], None),
 ("s: collect process bool", S, [(CP, '''        let ready = !self.has_transaction && self.pending_requests.len() >= self.min_pending;
        if ready {
            let query = create_table_query(table_accessor, &self.pending_requests);
            let query_id = query.get_id();
            queries.push(query);
            self.waiting_processing_requests
                .insert(query_id, mem::take(&mut self.pending_requests));
            self.has_transaction = true;
        }
        ready
''')], None),
 ("s: process match response", S, [(RES, '''                match response {
                    Some(response) => results.push((request, response)),
                    None => tablet_requests.push(request),
                }
''')], None),
 ("s: process if let", S, [(UPD + '''                // Collect result if request has been processed and stash it otherwise
                // for later processing.
''' + RES, '''                if let Some(response) = response {
                    if update {
                        tablet_updated = true;
                    }
                    results.push((request, response));
                } else {
                    tablet_requests.push(request);
                }
''')], None),
 ("s: process let else", S, [(RES, '''                let Some(response) = response else {
                    tablet_requests.push(request);
                    continue;
                };
                results.push((request, response));
''')], None),
 ("s: process updated or", S, [(UPD, '''                tablet_updated = tablet_updated || (update && response.is_some());
''')], None),
 ("s: process updated if", S, [(UPD, '''                if update && response.is_some() {
                    tablet_updated = true;
                }
''')], None),
 ("s: process matches", S, [('''                let (update, response) = match &request {
                    KeyValueRequest::Put(correlation_id, put_request) => (
                        true,
                        Self::process_put_request(
                            *correlation_id,
                            put_request,
                            table_accessor,
                            table_query,
                            &mut tablet_contents,
                        ),
                    ),
                    KeyValueRequest::Get(correlation_id, get_request) => (
                        false,
                        Self::process_get_request(
                            *correlation_id,
                            get_request,
                            table_accessor,
                            table_query,
                            &mut tablet_contents,
                        ),
                    ),
                };
''', '''                let update = matches!(request, KeyValueRequest::Put(_, _));
                let response = match &request {
                    KeyValueRequest::Put(correlation_id, put_request) => Self::process_put_request(
                        *correlation_id,
                        put_request,
                        table_accessor,
                        table_query,
                        &mut tablet_contents,
                    ),
                    KeyValueRequest::Get(correlation_id, get_request) => Self::process_get_request(
                        *correlation_id,
                        get_request,
                        table_accessor,
                        table_query,
                        &mut tablet_contents,
                    ),
                };
''')], None),
 ("s: process waiting list", S, [('''            let mut tablet_updated = false;
''', '''            let mut tablet_updated = false;
            let mut waiting = Vec::new();
'''), ('''                    tablet_requests.push(request);
                }
            }
''', '''                    waiting.push(request);
                }
            }
            *tablet_requests = waiting;
''')], None),
 ("s: process match get", S, [('''        if let Some(tablet_requests) = self
            .waiting_processing_requests
            .get_mut(&table_query.get_id())
        {
            let mut tablet_updated = false;
''', '''        let tablet_requests = match self
            .waiting_processing_requests
            .get_mut(&table_query.get_id())
        {
            Some(tablet_requests) => tablet_requests,
            None => return results,
        };
        {
            let mut tablet_updated = false;
''')], None),
 ("s: process set contents let", S, [('''                tablet.set_contents(tablet_contents.encode_to_vec().into());
''', '''                let updated_contents = Bytes::from(tablet_contents.encode_to_vec());
                tablet.set_contents(updated_contents);
''')], None),
 ("s: process decode expect", S, [('''        let mut tablet_contents = TabletContents::decode(tablet.get_contents().clone()).unwrap();
''', '''        let encoded_contents = tablet.get_contents().clone();
        let mut tablet_contents =
            TabletContents::decode(encoded_contents).expect("Tablet contents are decodable");
''')], None),
 ("s: put guard", S, [(PUT, '''        let key_hash = table_accessor.hash_key(&put_request.key);
        if !table_query.get_key_hashes().contains(&key_hash) {
            return None;
        }
        let PutKeyRequest { key, value } = put_request.clone();
        let existed = tablet_contents.dictionary.insert(key, value).is_some();
        Some(KeyValueResponse::Put(correlation_id, PutKeyResponse { existed }))
''')], None),
 ("s: put contains first", S, [(PUT, '''        let covered = table_query
            .get_key_hashes()
            .contains(&table_accessor.hash_key(&put_request.key));
        covered.then(|| {
            let existed = tablet_contents.dictionary.contains_key(&put_request.key);
            tablet_contents
                .dictionary
                .insert(put_request.key.clone(), put_request.value.clone());
            KeyValueResponse::Put(correlation_id, PutKeyResponse { existed })
        })
''')], None),
 ("s: get match", S, [(GET, '''        let key_hash = table_accessor.hash_key(&get_request.key);
        if !table_query.get_key_hashes().contains(&key_hash) {
            return None;
        }
        let response = match tablet_contents.dictionary.get(&get_request.key) {
            Some(value) => GetKeyResponse {
                existed: true,
                value: value.clone(),
            },
            None => GetKeyResponse {
                existed: false,
                value: Bytes::new(),
            },
        };
        Some(KeyValueResponse::Get(correlation_id, response))
''')], None),
 ("s: get cloned default", S, [(EX, '''                    existed: existing_value.is_some(),
                    value: existing_value.cloned().unwrap_or_default(),
''')], None),
 ("s: get contains", S, [(EX, '''                    existed: tablet_contents.dictionary.contains_key(&get_request.key),
                    value: existing_value.cloned().unwrap_or(Bytes::new()),
''')], None),
 ("s: get if let", S, [(GET, '''        let key_hash = table_accessor.hash_key(&get_request.key);
        if table_query.get_key_hashes().contains(&key_hash) {
            let mut response = GetKeyResponse::default();
            if let Some(value) = tablet_contents.dictionary.get(&get_request.key) {
                response.existed = true;
                response.value = value.clone();
            }
            Some(KeyValueResponse::Get(correlation_id, response))
        } else {
            None
        }
''')], None),
 ("s: covers helper", S, [('''        let key_hash = table_accessor.hash_key(&get_request.key);
        if table_query.get_key_hashes().contains(&key_hash) {
''', '''        if query_covers(table_accessor, table_query, &get_request.key) {
'''), ('''        let key_hash = table_accessor.hash_key(&put_request.key);
        if table_query.get_key_hashes().contains(&key_hash) {
''', '''        if query_covers(table_accessor, table_query, &put_request.key) {
'''), ('''fn hash_request_key(''', '''fn query_covers(
    table_accessor: &TableAccessor,
    table_query: &transaction::TableQuery,
    key: &String,
) -> bool {
    let key_hash = table_accessor.hash_key(key);
    table_query.get_key_hashes().contains(&key_hash)
}

fn hash_request_key(''')], None),
 ("s: complete values", S, [(COMPL, '''        for requests in self.waiting_processing_requests.values_mut() {
            failed_requests.append(requests);
        }
        self.waiting_processing_requests.clear();
''')], None),
 ("s: complete into_values", S, [(COMPL, '''        let waiting = mem::take(&mut self.waiting_processing_requests);
        for requests in waiting.into_values() {
            failed_requests.extend(requests);
        }
''')], None),
 ("s: complete drain", S, [(COMPL, '''        for (_, requests) in self.waiting_processing_requests.drain() {
            failed_requests.extend(requests);
        }
''')], None),
 ("s: complete flat", S, [(COMPL, '''        failed_requests.extend(
            mem::take(&mut self.waiting_processing_requests)
                .into_values()
                .flatten(),
        );
''')], None),
 # --- transaction tracker
 ("s: append unzip", S, [(APR, '''        let (requests, responses): (Vec<_>, Vec<_>) = results.into_iter().unzip();
        self.requests.extend(requests);
        self.responses.extend(responses);
''')], None),
 ("s: append reserve", S, [(APR, '''        self.requests.reserve(results.len());
        self.responses.reserve(results.len());
        results.into_iter().for_each(|(request, response)| {
            self.requests.push(request);
            self.responses.push(response);
        });
''')], None),
 ("s: commit take", S, [(COMMIT, '''        if self.waiting_commit.is_some() {
            return;
        }
        let ready = match &self.transaction {
            Some(transaction) => !transaction.has_pending_process(),
            None => false,
        };
        if ready {
            if let Some(transaction) = self.transaction.take() {
                self.waiting_commit = Some(transaction.commit());
            }
        }
''')], None),
 ("s: commit match guard", S, [(COMMIT, '''        match self.transaction.take() {
            Some(transaction)
                if self.waiting_commit.is_none() && !transaction.has_pending_process() =>
            {
                self.waiting_commit = Some(transaction.commit());
            }
            transaction => self.transaction = transaction,
        }
''')], None),
 ("s: commit map_or", S, [('''                .is_some_and(|t| !t.has_pending_process())
''', '''                .map_or(false, |t| !t.has_pending_process())
''')], None),
 ("s: finalize guard", S, [(FT, '''        let Some(waiting_commit) = self.waiting_commit.as_mut() else {
            return false;
        };
        let outcome = match waiting_commit.check_result() {
            Some(outcome) => outcome,
            None => return false,
        };
        affected_tablet_ids.extend(self.tablet_ids.drain(..));
        if outcome == transaction::TabletTransactionOutcome::Succeeded {
            succeeded_responses.extend(mem::take(&mut self.responses));
        } else {
            failed_requests.extend(mem::take(&mut self.requests));
        }
        true
''')], None),
 ("s: finalize nested match", S, [(FT, '''        match self.waiting_commit.as_mut().and_then(|c| c.check_result()) {
            Some(transaction::TabletTransactionOutcome::Succeeded) => {
                succeeded_responses.append(&mut self.responses);
            }
            Some(transaction::TabletTransactionOutcome::Failed) => {
                failed_requests.append(&mut self.requests);
            }
            None => return false,
        }
        affected_tablet_ids.append(&mut self.tablet_ids);
        true
''')], None),
 ("s: finalize question", S, [(FT, '''        let outcome = self.waiting_commit.as_mut().and_then(|c| c.check_result());
        let completed = outcome.is_some();
        if let Some(outcome) = outcome {
            affected_tablet_ids.append(&mut self.tablet_ids);
            match outcome {
                transaction::TabletTransactionOutcome::Failed => {
                    failed_requests.append(&mut self.requests)
                }
                transaction::TabletTransactionOutcome::Succeeded => {
                    succeeded_responses.append(&mut self.responses)
                }
            }
        }
        completed
''')], None),
 ("s: query map", S, [(QRY, '''    let hashes = requests
        .iter()
        .map(|request| hash_request_key(table_accessor, request))
        .collect();
    let query_id = table_accessor.get_next_id();
    transaction::TableQuery::create(query_id, table_accessor.get_name().to_string(), hashes)
'''), ('''use alloc::{boxed::Box, rc::Rc, string::String, vec::Vec};''', '''use alloc::{boxed::Box, rc::Rc, string::{String, ToString}, vec::Vec};''')], None),
 ("s: hash key match", S, [('''    match request {
        KeyValueRequest::Put(_, put_request) => table_accessor.hash_key(&put_request.key),
        KeyValueRequest::Get(_, get_request) => table_accessor.hash_key(&get_request.key),
    }
''', '''    let key = match request {
        KeyValueRequest::Put(_, put_request) => &put_request.key,
        KeyValueRequest::Get(_, get_request) => &get_request.key,
    };
    table_accessor.hash_key(key)
''')], None),
 ("s: next id let", S, [('''        self.query_counter += 1;
        self.query_counter
''', '''        let query_id = self.query_counter + 1;
        self.query_counter = query_id;
        query_id
''')], None),
 # --- core
 ("s: finalize values helper", S, [(COLL, '''        for (transaction_id, transaction_tracker) in self.transaction_trackers.iter_mut() {
            let completed = transaction_tracker.maybe_finalize_transaction(
                &mut affected_tablet_ids,
                &mut failed_requests,
                &mut self.responses,
            );
            if !completed {
                continue;
            }
            completed_transactions.push(*transaction_id);
        }
''')], None),
 ("s: finalize retain", S, [('''        let mut completed_transactions = Vec::new();
''', ''''''), (COLL, '''        let responses = &mut self.responses;
        self.transaction_trackers.retain(|_, transaction_tracker| {
            !transaction_tracker.maybe_finalize_transaction(
                &mut affected_tablet_ids,
                &mut failed_requests,
                responses,
            )
        });
'''), ('''        // Clear all completed transactions and associated state.
        for transaction_id in completed_transactions {
            self.transaction_trackers.remove(&transaction_id);
        }
''', '')], None),
 ("s: finalize local responses", S, [('''        let mut failed_requests = Vec::new();
        for (transaction_id''', '''        let mut failed_requests = Vec::new();
        let mut succeeded_responses = Vec::new();
        for (transaction_id'''), ('''                &mut self.responses,
            ) {
                completed_transactions.push(*transaction_id);
            }
        }
''', '''                &mut succeeded_responses,
            ) {
                completed_transactions.push(*transaction_id);
            }
        }
        self.responses.append(&mut succeeded_responses);
''')], None),
 ("s: finalize remove first", S, [('''        // Enqueue failed requests for retry, affected tablets may have changed.
        for failed_request in failed_requests {
            self.request_tracker.append_pending_request(failed_request);
        }

        // Clear all completed transactions and associated state.
        for transaction_id in completed_transactions {
            self.transaction_trackers.remove(&transaction_id);
        }
''', '''        for transaction_id in &completed_transactions {
            self.transaction_trackers.remove(transaction_id);
        }
        failed_requests
            .into_iter()
            .for_each(|request| self.request_tracker.append_pending_request(request));
''')], None),
 ("s: complete iter", S, [(FIN, '''        for tablet_id in affected_tablet_ids.iter() {
            match self.tablet_trackers.get_mut(tablet_id) {
                Some(tablet_tracker) => tablet_tracker.complete_transaction(&mut failed_requests),
                None => {}
            }
        }
''')], None),
 ("s: start filter", S, [(START, '''        for (tablet_id, tablet_tracker) in self.tablet_trackers.iter_mut() {
            let included =
                tablet_tracker.collect_process_queries(&mut self.table_accessor, &mut queries);
            if included {
                tablet_ids.push(*tablet_id);
            }
        }
''')], None),
 ("s: start guard", S, [('''        if !queries.is_empty() {
            let mut transaction = transaction_context.start_transaction();
            // Transaction maybe committed once provided handler has been executed.
            transaction.process(queries, handler);

            self.transaction_trackers.insert(
                transaction.get_id(),
                TransactionTracker::create(tablet_ids, transaction),
            );
        }
''', '''        if queries.is_empty() {
            return;
        }
        let mut transaction = transaction_context.start_transaction();
        let transaction_id = transaction.get_id();
        transaction.process(queries, handler);
        let transaction_tracker = TransactionTracker::create(tablet_ids, transaction);
        self.transaction_trackers
            .insert(transaction_id, transaction_tracker);
''')], None),
 ("s: start query list per tablet", S, [('''        queries: &mut Vec<transaction::TableQuery>,
    ) -> bool {
''', '''    ) -> Option<transaction::TableQuery> {
'''), (CP, '''        if self.has_transaction || self.pending_requests.len() < self.min_pending {
            return None;
        }
        self.has_transaction = true;
        let query = create_table_query(table_accessor, &self.pending_requests);
        self.waiting_processing_requests
            .insert(query.get_id(), mem::take(&mut self.pending_requests));
        Some(query)
'''), (START, '''        for (tablet_id, tablet_tracker) in &mut self.tablet_trackers {
            if let Some(query) = tablet_tracker.collect_process_queries(&mut self.table_accessor) {
                queries.push(query);
                tablet_ids.push(*tablet_id);
            }
        }
''')], None),
 ("s: resolve option", S, [('''    ) -> Vec<transaction::TableQuery> {
        let mut queries = Vec::new();

''', '''    ) -> Option<transaction::TableQuery> {
'''), ('''            self.waiting_resolution_requests
                .insert(query.get_id(), mem::take(&mut self.pending_requests));
            queries.push(query);
        }

        queries
''', '''            self.waiting_resolution_requests
                .insert(query.get_id(), mem::take(&mut self.pending_requests));
            return Some(query);
        }

        None
'''), ('''        let resolve_queries = self
            .request_tracker
            .collect_resolve_queries(&mut self.table_accessor);

        if !resolve_queries.is_empty() {
            transaction_context.resolve(resolve_queries, handler);
        }
''', '''        if let Some(query) = self
            .request_tracker
            .collect_resolve_queries(&mut self.table_accessor)
        {
            transaction_context.resolve(Vec::from([query]), handler);
        }
''')], None),
 ("s: commit values", S, [('''        for transaction_tracker in self.transaction_trackers.values_mut() {
            transaction_tracker.maybe_commit_transaction();
        }
''', '''        self.transaction_trackers
            .values_mut()
            .for_each(|transaction_tracker| transaction_tracker.maybe_commit_transaction());
''')], None),
 ("s: commit iter", S, [('''        for transaction_tracker in self.transaction_trackers.values_mut() {
            transaction_tracker.maybe_commit_transaction();
        }
''', '''        for (_, transaction_tracker) in &mut self.transaction_trackers {
            transaction_tracker.maybe_commit_transaction();
        }
''')], None),
 ("s: resolve handler lets", S, [(HR, '''            let requests = self
                .request_tracker
                .take_resolved_requests(&self.table_accessor, &table_query);
            let min_pending = self.config.min_pending_before_process as usize;
            self.tablet_trackers
                .entry(tablet_descriptor.get_id())
                .or_insert_with(|| TabletTracker::create(min_pending))
                .append_pending_requests(requests);
''')], None),
 ("s: resolve handler get_mut", S, [(HR, '''            let tablet_id = tablet_descriptor.get_id();
            let requests = self
                .request_tracker
                .take_resolved_requests(&self.table_accessor, &table_query);
            if !self.tablet_trackers.contains_key(&tablet_id) {
                self.tablet_trackers.insert(
                    tablet_id,
                    TabletTracker::create(
                        self.config.min_pending_before_process.try_into().unwrap(),
                    ),
                );
            }
            let tablet_tracker = self.tablet_trackers.get_mut(&tablet_id).unwrap();
            tablet_tracker.append_pending_requests(requests);
''')], None),
 ("s: process handler guard", S, [(HQ, '''        let Some(transaction_tracker) = self.transaction_trackers.get_mut(&transaction_id) else {
            return;
        };
        for (table_query, tablet) in results {
            let Some(tablet_tracker) = self.tablet_trackers.get_mut(&tablet.get_id()) else {
                continue;
            };
            let process_results =
                tablet_tracker.process_table_query(&self.table_accessor, &table_query, tablet);
            transaction_tracker.append_process_results(process_results);
        }
''')], None),
 ("s: handler extend", S, [('''            Box::new(move |mut results| resolved_queries.borrow_mut().append(&mut results)),
''', '''            Box::new(move |results| resolved_queries.borrow_mut().extend(results)),
''')], None),
 ("s: handler take let", S, [('''        core.handle_query_resolve(mem::take(&mut *self.resolved_queries.borrow_mut()));
''', '''        let resolved = self.resolved_queries.take();
        core.handle_query_resolve(resolved);
''')], None),
 ("s: init lets", S, [('''        self.request_tracker =
            RequestTracker::create(config.min_pending_before_resolve.try_into().unwrap());
''', '''        let min_pending = config.min_pending_before_resolve as usize;
        self.request_tracker = RequestTracker {
            min_pending,
            ..Default::default()
        };
''')], None),
 ("s: take responses replace", S, [('''        mem::take(&mut self.responses)
''', '''        core::mem::replace(&mut self.responses, Vec::new())
''')], None),
 ("s: take responses drain", S, [('''        mem::take(&mut self.responses)
''', '''        self.responses.drain(..).collect()
''')], None),
 # --- actor
 ("a: decode question", A, [(DEC, '''            let in_header = TabletCacheInMessage::decode(command.header.clone())
                .map_err(|_| ActorError::Internal)?
                .in_msg;
''')], None),
 ("a: decode ok_or", A, [(DEC + '''
            match in_header {
                Some(oneof) => match oneof {
''', '''            let in_message = TabletCacheInMessage::decode(command.header.clone())
                .map_err(|_| ActorError::Internal)?;
            {
                match in_message.in_msg.ok_or(ActorError::Internal)? {
'''), ('''                },
                None => {
                    return Err(ActorError::Internal);
                }
            };
''', '''                }
            };
''')], None),
 ("a: decode let else", A, [(DEC + '''
            match in_header {
                Some(oneof) => match oneof {
''', '''            let Ok(TabletCacheInMessage {
                in_msg: Some(oneof),
            }) = TabletCacheInMessage::decode(command.header.clone())
            else {
                return Err(ActorError::Internal);
            };
            {
                match oneof {
'''), ('''                },
                None => {
                    return Err(ActorError::Internal);
                }
            };
''', '''                }
            };
''')], None),
 ("a: helper process", A, [('''        if let Some(command) = command {
            let in_header''', '''        if let Some(command) = command {
            self.process_in_command(command)?;
        }

        let instant = self.get_context().instant();
        self.transaction_manager.make_progress(instant);
        self.key_value_store
            .make_progress(instant, &mut self.transaction_manager);

        let mut out_commands = self.take_transaction_commands();
        out_commands.extend(self.take_store_commands());
        Ok(CommandOutcome::with_commands(out_commands))
    }

    fn on_apply_event(
        &mut self,
        _context: ActorEventContext,
        _event: ActorEvent,
    ) -> Result<EventOutcome, ActorError> {
        Ok(EventOutcome::with_none())
    }

    fn get_reference_values(&self) -> oak_proto_rust::oak::attestation::v1::ReferenceValues {
        reference_values_skip()
    }
}

impl<T: transaction::TabletTransactionManager<Bytes>, S: store::KeyValueStore>
    TabletCacheActor<T, S>
{
    fn process_in_command(&mut self, command: ActorCommand) -> Result<(), ActorError> {
            let in_header'''), ('''                None => {
                    return Err(ActorError::Internal);
                }
            };
        }

        let instant = self.get_context().instant();
        self.transaction_manager.make_progress(instant);
        self.key_value_store
            .make_progress(instant, &mut self.transaction_manager);

        let transaction_out_commands = self
            .transaction_manager
''', '''                None => {
                    return Err(ActorError::Internal);
                }
            };
        Ok(())
    }

    fn take_transaction_commands(&mut self) -> alloc::vec::Vec<ActorCommand> {
        self
            .transaction_manager
'''), ('''                    OutMsg::ExecuteTabletOpsRequest(execute_tablet_ops_tequest),
                    tablets_request,
                ),
            });

        let store_out_commands =
            self.key_value_store
''', '''                    OutMsg::ExecuteTabletOpsRequest(execute_tablet_ops_tequest),
                    tablets_request,
                ),
            })
            .collect()
    }

    fn take_store_commands(&mut self) -> alloc::vec::Vec<ActorCommand> {
            self.key_value_store
'''), ('''                            OutMsg::GetKeyResponse(get_response),
                            Bytes::new(),
                        )
                    }
                });

        let out_commands = transaction_out_commands.chain(store_out_commands).collect();

        Ok(CommandOutcome::with_commands(out_commands))
    }

    fn on_apply_event(
        &mut self,
        _context: ActorEventContext,
        _event: ActorEvent,
    ) -> Result<EventOutcome, ActorError> {
        Ok(EventOutcome::with_none())
    }

    fn get_reference_values(&self) -> oak_proto_rust::oak::attestation::v1::ReferenceValues {
''', '''                            OutMsg::GetKeyResponse(get_response),
                            Bytes::new(),
                        )
                    }
                })
                .collect()
    }
}

fn reference_values_skip() -> oak_proto_rust::oak::attestation::v1::ReferenceValues {
    {
'''),], None),
 ("a: loops", A, [('''        let out_commands = transaction_out_commands.chain(store_out_commands).collect();
''', '''        let mut out_commands = alloc::vec::Vec::new();
        out_commands.extend(transaction_out_commands);
        out_commands.extend(store_out_commands);
''')], None),
 ("a: command flat", A, [('''        Self::command_with_bytes(
            correlation_id,
            out_header,
            out_payload.encode_to_vec().into(),
        )
''', '''        ActorCommand::with_header_and_payload(
            correlation_id,
            &TabletCacheOutMessage {
                out_msg: Some(out_header),
            },
            Bytes::from(out_payload.encode_to_vec()),
        )
''')], None),
 ("a: execute match", A, [('''                        let tablets_response = TabletsResponse::decode(command.payload)
                            .map_err(|_| ActorError::Internal)?;
''', '''                        let tablets_response = match TabletsResponse::decode(command.payload) {
                            Ok(tablets_response) => tablets_response,
                            Err(_) => return Err(ActorError::Internal),
                        };
''')], None),
 ("a: init config", A, [('''        self.key_value_store
            .init(key_value_store_logger, config.store_config.unwrap());
''', '''        let store_config = config.store_config.clone().expect("Store config is set");
        self.key_value_store.init(key_value_store_logger, store_config);
''')], None),
 # --- results
 ("r: check match", R, [(CHK, '''        let core = self.core.borrow();
        match (&core.result, &core.error) {
            (Some(result), _) => Some(Ok(result.clone())),
            (None, Some(error)) => Some(Err(error.clone())),
            (None, None) => None,
        }
''')], None),
 ("r: check if let", R, [(CHK, '''        let core = self.core.borrow();
        if let Some(result) = &core.result {
            return Some(Ok(result.clone()));
        }
        core.error.as_ref().map(|error| Err(error.clone()))
''')], None),
 ("r: check or_else", R, [(CHK, '''        let core = self.core.borrow();
        core.result
            .clone()
            .map(Ok)
            .or_else(|| core.error.clone().map(Err))
''')], None),
 ("r: set assert twice", R, [('''        assert!(core.error.is_none() && core.result.is_none());
        core.result = Some(result);
''', '''        assert!(core.error.is_none());
        assert!(core.result.is_none());
        core.result.replace(result);
''')], None),
 ("r: set helper", R, [('''        let mut core = self.core.borrow_mut();
        assert!(core.error.is_none() && core.result.is_none());
        core.error = Some(error);
''', '''        let mut core = self.core.borrow_mut();
        core.assert_empty();
        core.error = Some(error);
'''), ('''// Enables method caller to later''', '''impl<T: Clone, E: Clone> ResultCore<T, E> {
    fn assert_empty(&self) {
        if self.result.is_some() || self.error.is_some() {
            panic!("Result or error has already been set");
        }
    }
}

// Enables method caller to later''')], None),
 # --- transaction types
 ("t: query collect", T, [('''        let mut key_hash_set = BTreeSet::new();
        for key_hash in key_hashes {
            key_hash_set.insert(key_hash);
        }
        TableQuery {
            query_id,
            table_name,
            key_hashes: key_hash_set,
        }
''', '''        TableQuery {
            query_id,
            table_name,
            key_hashes: key_hashes.into_iter().collect(),
        }
''')], None),
 ("t: query from_iter", T, [('''        let mut key_hash_set = BTreeSet::new();
        for key_hash in key_hashes {
            key_hash_set.insert(key_hash);
        }
''', '''        let key_hash_set = BTreeSet::from_iter(key_hashes);
''')], None),
 ("t: query from literal", T, [('''        Self::create(self.query_id, self.table_name.clone(), key_hashes)
''', '''        TableQuery {
            key_hashes: key_hashes.into_iter().collect(),
            ..self.clone()
        }
''')], None),
 ("t: take updated", T, [('''        mem::take(&mut self.updated_contents)
''', '''        self.updated_contents.take()
''')], None),
 ("t: set replace", T, [('''        self.is_dirty = true;
        self.updated_contents = Some(contents);
''', '''        self.updated_contents.replace(contents);
        self.is_dirty = true;
''')], None),
 ("t: create with", T, [('''        Tablet {
            metadata: tablet_metadata,
            contents: Some(TabletData::create(tablet_contents)),
            updated_contents: None,
            is_dirty: false,
        }
''', '''        let contents = Some(TabletData::create(tablet_contents));
        Tablet {
            contents,
            ..Self::create(tablet_metadata)
        }
''')], None),
 ("t: get contents match", T, [('''        self.contents.as_ref().unwrap()
''', '''        match &self.contents {
            Some(contents) => contents,
            None => panic!("Tablet contents has not been loaded"),
        }
''')], None),
]
