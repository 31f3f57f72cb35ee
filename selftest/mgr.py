F = "apps/tablet_cache/service/src/transaction/manager.rs"
R = "apps/tablet_cache/service/src/transaction/result.rs"
M = "apps/tablet_cache/app/src/main.rs"
CASES = [
 ("store as load id", F, [("                    correletion_id,\n                    store_tablet_respose,\n                )),", "                    correletion_id + 1,\n                    store_tablet_respose,\n                )),")], {"C30"}),
 ("list only if alone", F, [("if !list_op_results.is_empty() {", "if !list_op_results.is_empty() && execute_op_results.is_empty() {")], {"C30"}),
 ("first of execute", F, [("                    execute_op_results.push(tablet_op_result);", "                    if execute_op_results.is_empty() { execute_op_results.push(tablet_op_result); }")], {"C30"}),
 ("lists among ops", F, [("if let OpResult::ListTablet(_) = op_result {", "if let (OpResult::ListTablet(_), true) = (op_result, execute_op_results.is_empty()) {")], {"C30"}),
 ("take results", F, [("for tablet_op_result in tablets_response.tablet_results {", "for tablet_op_result in tablets_response.tablet_results.into_iter().take(16) {")], {"C30"}),
 ("data messages limited", F, [("for data_out_message in self.data_cache.take_out_messages() {", "for data_out_message in self.data_cache.take_out_messages().into_iter().take(8) {")], {"C30"}),
 ("empty execute dropped", F, [("                    OutMessage::LoadTabletRequest(correlation_id, load_tablet_request)\n", "                    OutMessage::LoadTabletRequest(0, load_tablet_request)\n")], {"C30"}),
 ("store payload dropped", F, [("                    store_tablet_request,\n                    tablet_data,\n                ),\n            });", "                    store_tablet_request,\n                    if tablet_data.len() > 1 { tablet_data } else { Default::default() },\n                ),\n            });")], {"C30"}),
 ("same start", M, [("                METADATA_CACHE_CORRELATION_COUNTER,\n", "                DATA_CACHE_CORRELATION_COUNTER + 1000,\n")], {"C30"}),
 ("missing results ignored", F, [("                        if index >= results_count {\n                            tablets_response.tablet_results.push(error);\n                        } else if", "                        if index < results_count &&")], {"C31"}),
 ("off by one", F, [("if index >= results_count {", "if index > results_count {")], {"C31"}),
 ("empty ignored", F, [("                        } else if tablets_response.tablet_results[index].op_result.is_none() {\n                            tablets_response.tablet_results[index] = error;\n", "")], {"C31"}),
 ("present overwritten", F, [("} else if tablets_response.tablet_results[index].op_result.is_none() {", "} else if tablets_response.tablet_results[index].status == 0 {")], {"C31"}),
 ("failure kept", F, [("            InMessage::ExecuteTabletOpsError(correlation_id, _execute_ops_error) => {\n                if let Some(tablets_error) = self.tablets_errors.remove(&correlation_id) {", "            InMessage::ExecuteTabletOpsError(correlation_id, _execute_ops_error) => {\n                if let Some(tablets_error) = self.tablets_errors.get(&correlation_id).cloned() {")], {"C31"}),
 ("update as check", F, [("Some(Op::UpdateTablet(_)) => Some(OpResult::UpdateTablet(UpdateTabletResult::default())),", "Some(Op::UpdateTablet(_)) => Some(OpResult::CheckTablet(CheckTabletResult::default())),")], {"C31"}),
 ("range swapped", F, [("            key_hash_from: list_tablet_op.key_hash_from,\n            key_hash_to: list_tablet_op.key_hash_to,", "            key_hash_from: list_tablet_op.key_hash_from,\n            key_hash_to: list_tablet_op.key_hash_from,")], {"C31"}),
 ("failed is succeeded", F, [("        status: TabletsRequestStatus::Failed.into(),\n        op_result", "        status: TabletsRequestStatus::Succeeded.into(),\n        op_result")], {"C31"}),
 ("failures of first op", F, [("                        tablet_results: execute_ops\n                            .iter()\n", "                        tablet_results: execute_ops\n                            .iter()\n                            .take(1)\n")], {"C31"}),
 ("data not driven", F, [("        self.data_cache.make_progress(instant);\n", "")], {"C32"}),
 ("commit twice", F, [("            .commit_transaction(self.transaction_id);\n        self\n", "            .commit_transaction(self.transaction_id);\n        self.core.borrow_mut().commit_transaction(self.transaction_id);\n        self\n")], {"C32"}),
 ("abort commits", F, [("        self.transaction_coordinator\n            .abort_transaction(transaction_id)", "        self.transaction_coordinator\n            .commit_transaction(transaction_id)")], {"C32"}),
 ("outcome asked again", F, [("        if self.transaction_outcome.is_none() {", "        if self.transaction_outcome != Some(TabletTransactionOutcome::Failed) {")], {"C32"}),
 ("progress if idle", F, [("        self.metadata_cache.make_progress(instant);\n", "        if self.tablets_errors.is_empty() {\n            self.metadata_cache.make_progress(instant);\n        }\n")], {"C32"}),
 ("error first", R, [("        if core.result.is_some() {\n            Some(Ok(core.result.as_ref().unwrap().clone()))\n        } else if core.error.is_some() {\n            Some(Err(core.error.as_ref().unwrap().clone()))\n        } else {", "        if core.result.is_some() && core.error.is_some() {\n            Some(Ok(core.result.as_ref().unwrap().clone()))\n        } else if core.error.is_some() {\n            Some(Err(core.error.as_ref().unwrap().clone()))\n        } else {")], {"C33"}),
 ("set twice", R, [("        assert!(core.error.is_none() && core.result.is_none());\n        core.result", "        assert!(core.error.is_none());\n        core.result")], {"C33"}),
 ("error as result kept", R, [("            result: None,\n            error: Some(error),", "            result: None,\n            error: None,")], {"C33"}),
 # behaviour kept
 ("r: match results", F, [("                if let OpResult::ListTablet(_) = op_result {\n                    list_op_results.push(tablet_op_result);\n                } else {\n                    execute_op_results.push(tablet_op_result);\n                }", "                match op_result {\n                    OpResult::ListTablet(_) => list_op_results.push(tablet_op_result),\n                    _ => execute_op_results.push(tablet_op_result),\n                }")], None),
 ("r: partition results", F, [("        let mut list_op_results = Vec::new();\n        let mut execute_op_results = Vec::new();\n\n        for tablet_op_result in tablets_response.tablet_results {\n            if let Some(op_result) = &tablet_op_result.op_result {\n                if let OpResult::ListTablet(_) = op_result {\n                    list_op_results.push(tablet_op_result);\n                } else {\n                    execute_op_results.push(tablet_op_result);\n                }\n            }\n        }\n", "        let (list_op_results, execute_op_results): (Vec<_>, Vec<_>) = tablets_response\n            .tablet_results\n            .into_iter()\n            .filter(|r| r.op_result.is_some())\n            .partition(|r| matches!(r.op_result, Some(OpResult::ListTablet(_))));\n")], None),
 ("r: helper for errors", F, [("                    let tablets_error = TabletsResponse {\n                        status: TabletsRequestStatus::Failed.into(),\n                        tablet_results: execute_ops\n                            .iter()\n                            .map(|tablet_op| create_failed_op_result(tablet_op))\n                            .collect(),\n                    };\n", "                    let tablets_error = create_failed_response(&execute_ops);\n"), ("fn create_failed_op_result(", "fn create_failed_response(ops: &[TabletOp]) -> TabletsResponse {\n    let mut tablet_results = Vec::with_capacity(ops.len());\n    for op in ops {\n        tablet_results.push(create_failed_op_result(op));\n    }\n    TabletsResponse {\n        status: TabletsRequestStatus::Failed.into(),\n        tablet_results,\n    }\n}\n\nfn create_failed_op_result(")], None),
 ("r: skip for missing", F, [("                        if index >= results_count {\n                            tablets_response.tablet_results.push(error);\n                        } else if tablets_response.tablet_results[index].op_result.is_none() {\n                            tablets_response.tablet_results[index] = error;\n                        }\n", "                        if index < results_count {\n                            if tablets_response.tablet_results[index].op_result.is_none() {\n                                tablets_response.tablet_results[index] = error;\n                            }\n                        } else {\n                            tablets_response.tablet_results.push(error);\n                        }\n")], None),
 ("r: match get_mut", F, [("                        if index >= results_count {\n                            tablets_response.tablet_results.push(error);\n                        } else if tablets_response.tablet_results[index].op_result.is_none() {\n                            tablets_response.tablet_results[index] = error;\n                        }\n", "                        match tablets_response.tablet_results.get_mut(index) {\n                            Some(result) if result.op_result.is_none() => *result = error,\n                            Some(_) => {}\n                            None => tablets_response.tablet_results.push(error),\n                        }\n"), ("                    let results_count = tablets_response.tablet_results.len();\n", "")], None),
 ("r: match outcome", F, [("        if self.transaction_outcome.is_none() {\n            self.transaction_outcome = self\n                .core\n                .borrow_mut()\n                .check_transaction_result(self.transaction_id);\n        }\n        self.transaction_outcome\n", "        if self.transaction_outcome.is_some() {\n            return self.transaction_outcome;\n        }\n        let outcome = self\n            .core\n            .borrow_mut()\n            .check_transaction_result(self.transaction_id);\n        self.transaction_outcome = outcome;\n        outcome\n")], None),
 ("r: handle match", R, [("        if core.result.is_some() {\n            Some(Ok(core.result.as_ref().unwrap().clone()))\n        } else if core.error.is_some() {\n            Some(Err(core.error.as_ref().unwrap().clone()))\n        } else {\n            None\n        }", "        match (&core.result, &core.error) {\n            (Some(result), _) => Some(Ok(result.clone())),\n            (None, Some(error)) => Some(Err(error.clone())),\n            (None, None) => None,\n        }")], None),
 ("r: handle map", R, [("        if core.result.is_some() {\n            Some(Ok(core.result.as_ref().unwrap().clone()))\n        } else if core.error.is_some() {\n            Some(Err(core.error.as_ref().unwrap().clone()))\n        } else {\n            None\n        }", "        if let Some(result) = &core.result {\n            return Some(Ok(result.clone()));\n        }\n        core.error.clone().map(Err)")], None),
 ("r: extend data", F, [("        for data_out_message in self.data_cache.take_out_messages() {\n            out_messages.push(match data_out_message {", "        out_messages.extend(self.data_cache.take_out_messages().into_iter().map(|data_out_message| {\n            match data_out_message {"), ("                    store_tablet_request,\n                    tablet_data,\n                ),\n            });\n        }\n", "                    store_tablet_request,\n                    tablet_data,\n                ),\n            }\n        }));\n")], None),
]
