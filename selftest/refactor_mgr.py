"""Behaviour-preserving rewrites of the transaction manager: every check must stay quiet."""
F = "apps/tablet_cache/service/src/transaction/manager.rs"
ERR = '''                    let tablets_error = TabletsResponse {
                        status: TabletsRequestStatus::Failed.into(),
                        tablet_results: %s
                            .iter()
                            .map(|tablet_op| create_failed_op_result(tablet_op))
                            .collect(),
                    };
'''
PROC = '''        for tablet_op_result in tablets_response.tablet_results {
            if let Some(op_result) = &tablet_op_result.op_result {
                if let OpResult::ListTablet(_) = op_result {
                    list_op_results.push(tablet_op_result);
                } else {
                    execute_op_results.push(tablet_op_result);
                }
            }
        }
'''
TX = '''        for transaction_out_message in self.transaction_coordinator.take_out_messages() {
            out_messages.push(match transaction_out_message {
                TabletTransactionCoordinatorOutMessage::ExecuteTabletOpsRequest(
                    correlation_id,
                    execute_ops,
                ) => {
                    let tablets_error = TabletsResponse {
                        status: TabletsRequestStatus::Failed.into(),
                        tablet_results: execute_ops
                            .iter()
                            .map(|tablet_op| create_failed_op_result(tablet_op))
                            .collect(),
                    };

                    assert!(self
                        .tablets_errors
                        .insert(correlation_id, tablets_error)
                        .is_none());

                    let tablets_request = TabletsRequest {
                        tablet_ops: execute_ops,
                    };

                    OutMessage::ExecuteTabletOpsRequest(
                        correlation_id,
                        ExecuteTabletOpsRequest::default(),
                        tablets_request,
                    )
                }
            });
        }
'''
META = TX.replace("transaction_out_message in self.transaction_coordinator", "metadata_out_message in self.metadata_cache").replace("transaction_out_message", "metadata_out_message").replace("execute_ops", "list_ops") \
    .replace('''TabletTransactionCoordinatorOutMessage::ExecuteTabletOpsRequest(
                    correlation_id,
                    list_ops,
                ) =>''', "TabletMetadataCacheOutMessage::ListRequest(correlation_id, list_ops) =>")
DATA = '''        for data_out_message in self.data_cache.take_out_messages() {
            out_messages.push(match data_out_message {
                TabletDataCacheOutMessage::LoadRequest(correlation_id, load_tablet_request) => {
                    OutMessage::LoadTabletRequest(correlation_id, load_tablet_request)
                }
                TabletDataCacheOutMessage::StoreRequest(
                    correlation_id,
                    store_tablet_request,
                    tablet_data,
                ) => OutMessage::StoreTabletRequest(
                    correlation_id,
                    store_tablet_request,
                    tablet_data,
                ),
            });
        }
'''
HELP = '''    fn create_request(&mut self, correlation_id: u64, tablet_ops: Vec<TabletOp>) -> OutMessage {
        let tablet_results = tablet_ops.iter().map(create_failed_op_result).collect();
        let previous = self.tablets_errors.insert(
            correlation_id,
            TabletsResponse {
                status: TabletsRequestStatus::Failed.into(),
                tablet_results,
            },
        );
        assert!(previous.is_none());
        OutMessage::ExecuteTabletOpsRequest(
            correlation_id,
            ExecuteTabletOpsRequest::default(),
            TabletsRequest { tablet_ops },
        )
    }

    fn process_in_tablets_op_response(
'''
MERGE = '''                if let Some(tablets_error) = self.tablets_errors.remove(&correlation_id) {
                    let results_count = tablets_response.tablet_results.len();
                    for (index, error) in tablets_error.tablet_results.into_iter().enumerate() {
                        if index >= results_count {
                            tablets_response.tablet_results.push(error);
                        } else if tablets_response.tablet_results[index].op_result.is_none() {
                            tablets_response.tablet_results[index] = error;
                        }
                    }
                }
'''
HEADP = "    fn process_in_tablets_op_response(\n        &mut self,"
CASES = [
 ("g: create request helper", F, [(TX, '''        for transaction_out_message in self.transaction_coordinator.take_out_messages() {
            let TabletTransactionCoordinatorOutMessage::ExecuteTabletOpsRequest(
                correlation_id,
                execute_ops,
            ) = transaction_out_message;
            out_messages.push(self.create_request(correlation_id, execute_ops));
        }
'''), (META, '''        for metadata_out_message in self.metadata_cache.take_out_messages() {
            let TabletMetadataCacheOutMessage::ListRequest(correlation_id, list_ops) =
                metadata_out_message;
            out_messages.push(self.create_request(correlation_id, list_ops));
        }
'''), ("    fn process_in_tablets_op_response(\n", HELP)], None),
 ("g: create request helper extend map", F, [(TX, '''        let transaction_out_messages = self.transaction_coordinator.take_out_messages();
        for transaction_out_message in transaction_out_messages {
            match transaction_out_message {
                TabletTransactionCoordinatorOutMessage::ExecuteTabletOpsRequest(
                    correlation_id,
                    execute_ops,
                ) => {
                    let request = self.create_request(correlation_id, execute_ops);
                    out_messages.push(request);
                }
            }
        }
'''), ("    fn process_in_tablets_op_response(\n", HELP)], None),
 ("g: data extend map", F, [(DATA, '''        out_messages.extend(self.data_cache.take_out_messages().into_iter().map(
            |data_out_message| match data_out_message {
                TabletDataCacheOutMessage::LoadRequest(correlation_id, load_tablet_request) => {
                    OutMessage::LoadTabletRequest(correlation_id, load_tablet_request)
                }
                TabletDataCacheOutMessage::StoreRequest(
                    correlation_id,
                    store_tablet_request,
                    tablet_data,
                ) => OutMessage::StoreTabletRequest(
                    correlation_id,
                    store_tablet_request,
                    tablet_data,
                ),
            },
        ));
''')], None),
 ("g: data separate push", F, [(DATA, '''        for data_out_message in self.data_cache.take_out_messages() {
            match data_out_message {
                TabletDataCacheOutMessage::LoadRequest(correlation_id, request) => {
                    out_messages.push(OutMessage::LoadTabletRequest(correlation_id, request));
                }
                TabletDataCacheOutMessage::StoreRequest(correlation_id, request, data) => {
                    let message = OutMessage::StoreTabletRequest(correlation_id, request, data);
                    out_messages.push(message);
                }
            }
        }
''')], None),
 ("g: three helpers", F, [(DATA, '''        self.take_data_out_messages(&mut out_messages);
'''), ("    fn process_in_tablets_op_response(\n", '''    fn take_data_out_messages(&mut self, out_messages: &mut Vec<OutMessage>) {
''' + DATA + '''    }

    fn process_in_tablets_op_response(
''')], None),
 ("g: data helper returns", F, [(DATA, '''        out_messages.extend(self.take_data_out_messages());
'''), ("    fn process_in_tablets_op_response(\n", '''    fn take_data_out_messages(&mut self) -> Vec<OutMessage> {
        let mut out_messages = Vec::new();
''' + DATA + '''        out_messages
    }

    fn process_in_tablets_op_response(
''')], None),
 ("g: data helper append", F, [(DATA, '''        let mut data_out_messages = self.take_data_out_messages();
        out_messages.append(&mut data_out_messages);
'''), ("    fn process_in_tablets_op_response(\n", '''    fn take_data_out_messages(&mut self) -> Vec<OutMessage> {
        let mut out_messages = Vec::new();
''' + DATA + '''        out_messages
    }

    fn process_in_tablets_op_response(
''')], None),
 ("g: data convert fn", F, [(DATA, '''        out_messages.extend(
            self.data_cache
                .take_out_messages()
                .into_iter()
                .map(convert_data_out_message),
        );
'''), ("fn create_failed_op_result(", '''fn convert_data_out_message(message: TabletDataCacheOutMessage) -> OutMessage {
    match message {
        TabletDataCacheOutMessage::LoadRequest(correlation_id, request) => {
            OutMessage::LoadTabletRequest(correlation_id, request)
        }
        TabletDataCacheOutMessage::StoreRequest(correlation_id, request, data) => {
            OutMessage::StoreTabletRequest(correlation_id, request, data)
        }
    }
}

fn create_failed_op_result(''')], None),
 ("g: error collect loop", F, [(ERR % "execute_ops", '''                    let mut tablet_results = Vec::with_capacity(execute_ops.len());
                    for tablet_op in &execute_ops {
                        tablet_results.push(create_failed_op_result(tablet_op));
                    }
                    let tablets_error = TabletsResponse {
                        status: TabletsRequestStatus::Failed.into(),
                        tablet_results,
                    };
''')], None),
 ("g: errors helper", F, [(ERR % "execute_ops", '''                    let tablets_error = create_failed_response(&execute_ops);
'''), (ERR % "list_ops", '''                    let tablets_error = create_failed_response(&list_ops);
'''), ("fn create_failed_op_result(", '''fn create_failed_response(tablet_ops: &[TabletOp]) -> TabletsResponse {
    TabletsResponse {
        status: TabletsRequestStatus::Failed.into(),
        tablet_results: tablet_ops.iter().map(create_failed_op_result).collect(),
    }
}

fn create_failed_op_result(''')], None),
 ("g: failed let", F, [('''    TabletOpResult {
        table_name: tablet_op.table_name.clone(),
        status: TabletsRequestStatus::Failed.into(),
        op_result: tablet_op_result,
    }
''', '''    let table_name = tablet_op.table_name.to_string();
    TabletOpResult {
        op_result: tablet_op_result,
        status: TabletsRequestStatus::Failed as i32,
        table_name,
    }
''')], None),
 ("g: failed map", F, [('''    let tablet_op_result = match &tablet_op.op {
        Some(Op::ListTablet(list_tablet_op)) => Some(OpResult::ListTablet(ListTabletResult {
            key_hash_from: list_tablet_op.key_hash_from,
            key_hash_to: list_tablet_op.key_hash_to,
            tablets: Vec::new(),
        })),
        Some(Op::CheckTablet(_)) => Some(OpResult::CheckTablet(CheckTabletResult::default())),
        Some(Op::UpdateTablet(_)) => Some(OpResult::UpdateTablet(UpdateTabletResult::default())),
        Some(Op::AddTablet(_)) => Some(OpResult::AddTablet(AddTabletResult::default())),
        Some(Op::RemoveTablet(_)) => Some(OpResult::RemoveTablet(RemoveTabletResult::default())),
        None => None,
    };
''', '''    let tablet_op_result = tablet_op.op.as_ref().map(|op| match op {
        Op::ListTablet(list_tablet_op) => OpResult::ListTablet(ListTabletResult {
            key_hash_from: list_tablet_op.key_hash_from,
            key_hash_to: list_tablet_op.key_hash_to,
            ..Default::default()
        }),
        Op::CheckTablet(_) => OpResult::CheckTablet(CheckTabletResult::default()),
        Op::UpdateTablet(_) => OpResult::UpdateTablet(UpdateTabletResult::default()),
        Op::AddTablet(_) => OpResult::AddTablet(AddTabletResult::default()),
        Op::RemoveTablet(_) => OpResult::RemoveTablet(RemoveTabletResult::default()),
    });
''')], None),
 ("g: split match", F, [(PROC, '''        for tablet_op_result in tablets_response.tablet_results {
            match &tablet_op_result.op_result {
                Some(OpResult::ListTablet(_)) => list_op_results.push(tablet_op_result),
                Some(_) => execute_op_results.push(tablet_op_result),
                None => {}
            }
        }
''')], None),
 ("g: split continue", F, [(PROC, '''        for tablet_op_result in tablets_response.tablet_results {
            let Some(op_result) = tablet_op_result.op_result.as_ref() else {
                continue;
            };
            let results = if matches!(op_result, OpResult::ListTablet(_)) {
                &mut list_op_results
            } else {
                &mut execute_op_results
            };
            results.push(tablet_op_result);
        }
''')], None),
 ("g: split partition", F, [('''        let mut list_op_results = Vec::new();
        let mut execute_op_results = Vec::new();

''' + PROC, '''        let (list_op_results, execute_op_results): (Vec<_>, Vec<_>) = tablets_response
            .tablet_results
            .into_iter()
            .filter(|tablet_op_result| tablet_op_result.op_result.is_some())
            .partition(|tablet_op_result| {
                matches!(tablet_op_result.op_result, Some(OpResult::ListTablet(_)))
            });
''')], None),
 ("g: split helper", F, [('''        let mut list_op_results = Vec::new();
        let mut execute_op_results = Vec::new();

''' + PROC, '''        let (list_op_results, execute_op_results) = split_op_results(tablets_response);
'''), ("fn create_failed_op_result(", '''fn split_op_results(
    tablets_response: TabletsResponse,
) -> (Vec<TabletOpResult>, Vec<TabletOpResult>) {
    let mut list_op_results = Vec::new();
    let mut execute_op_results = Vec::new();
''' + PROC + '''    (list_op_results, execute_op_results)
}

fn create_failed_op_result(''')], None),
 ("g: forward early", F, [('''        if !list_op_results.is_empty() {
            self.metadata_cache
                .process_in_message(TabletMetadataCacheInMessage::ListResponse(
                    correlation_id,
                    list_op_results,
                ));
        }
''', '''        let has_list_op_results = list_op_results.len() > 0;
        if has_list_op_results {
            let list_response =
                TabletMetadataCacheInMessage::ListResponse(correlation_id, list_op_results);
            self.metadata_cache.process_in_message(list_response);
        }
''')], None),
 ("g: merge helper", F, [(MERGE, '''                if let Some(tablets_error) = self.tablets_errors.remove(&correlation_id) {
                    merge_errors(&mut tablets_response, tablets_error);
                }
'''), ("fn create_failed_op_result(", '''fn merge_errors(tablets_response: &mut TabletsResponse, tablets_error: TabletsResponse) {
    let results_count = tablets_response.tablet_results.len();
    for (index, error) in tablets_error.tablet_results.into_iter().enumerate() {
        if index >= results_count {
            tablets_response.tablet_results.push(error);
        } else if tablets_response.tablet_results[index].op_result.is_none() {
            tablets_response.tablet_results[index] = error;
        }
    }
}

fn create_failed_op_result(''')], None),
 ("g: merge get_mut", F, [(MERGE, '''                if let Some(tablets_error) = self.tablets_errors.remove(&correlation_id) {
                    for (index, error) in tablets_error.tablet_results.into_iter().enumerate() {
                        match tablets_response.tablet_results.get_mut(index) {
                            None => tablets_response.tablet_results.push(error),
                            Some(result) if result.op_result.is_none() => *result = error,
                            Some(_) => {}
                        }
                    }
                }
''')], None),
 ("g: error let else", F, [('''                if let Some(tablets_error) = self.tablets_errors.remove(&correlation_id) {
                    self.process_in_tablets_op_response(correlation_id, tablets_error);
                }
''', '''                let Some(tablets_error) = self.tablets_errors.remove(&correlation_id) else {
                    return;
                };
                self.process_in_tablets_op_response(correlation_id, tablets_error);
''')], None),
 ("g: in message lets", F, [('''                self.data_cache
                    .process_in_message(TabletDataCacheInMessage::LoadResponse(
                        correlation_id,
                        load_tablet_response,
                        tablet_data,
                    ))
''', '''                let data_message = TabletDataCacheInMessage::LoadResponse(
                    correlation_id,
                    load_tablet_response,
                    tablet_data,
                );
                self.data_cache.process_in_message(data_message);
''')], None),
 ("g: check result match", F, [('''        if self.transaction_outcome.is_none() {
            self.transaction_outcome = self
                .core
                .borrow_mut()
                .check_transaction_result(self.transaction_id);
        }
        self.transaction_outcome
''', '''        if let Some(outcome) = self.transaction_outcome {
            return Some(outcome);
        }
        let outcome = self
            .core
            .borrow_mut()
            .check_transaction_result(self.transaction_id);
        self.transaction_outcome = outcome;
        outcome
''')], None),
 ("g: check result or_else", F, [('''        if self.transaction_outcome.is_none() {
            self.transaction_outcome = self
                .core
                .borrow_mut()
                .check_transaction_result(self.transaction_id);
        }
        self.transaction_outcome
''', '''        let transaction_id = self.transaction_id;
        let core = &self.core;
        self.transaction_outcome = self
            .transaction_outcome
            .or_else(|| core.borrow_mut().check_transaction_result(transaction_id));
        self.transaction_outcome
''')], None),
 ("g: start transaction let", F, [('''        Box::new(DefaultTabletTransaction::create(
            self.core.borrow_mut().create_transaction(),
            self.core.clone(),
        ))
''', '''        let transaction_id = self.core.borrow_mut().create_transaction();
        let core = Rc::clone(&self.core);
        Box::new(DefaultTabletTransaction {
            core,
            transaction_outcome: None,
            transaction_id,
        })
''')], None),
 ("g: init helper", F, [('''        let data_cache_logger = self.logger.new(o!("type" => "data"));
        self.data_cache
            .init(data_cache_logger, config.data_cache_config.unwrap());
''', '''        let data_cache_config = config.data_cache_config.clone().unwrap();
        self.data_cache.init(self.logger.new(o!("type" => "data")), data_cache_config);
''')], None),
 ("g: init expect", F, [('''            .init(metadata_cache_logger, config.metadata_cache_config.unwrap());
''', '''            .init(
                metadata_cache_logger,
                config
                    .metadata_cache_config
                    .expect("Metadata cache config must be set"),
            );
''')], None),
 ("g: progress order lets", F, [('''        self.transaction_coordinator.make_progress(
            instant,
            &mut *self.metadata_cache,
            &mut *self.data_cache,
        );
''', '''        let metadata_cache = self.metadata_cache.as_mut();
        let data_cache = self.data_cache.as_mut();
        self.transaction_coordinator
            .make_progress(instant, metadata_cache, data_cache);
''')], None),
]
