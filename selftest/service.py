S = "runtime/src/service.rs"
AC, TS, TC, CC, WC = "apps/atomic_counter/app/src/main.rs", "apps/tablet_store/app/src/main.rs", "apps/tablet_cache/app/src/main.rs", "apps/atomic_counter/container/src/main.rs", "apps/willow/decryptor/container/src/main.rs"
CASES = [
 ("endpoint survives", S, [("        else {\n            // The application has encoutered an unrecoverable error.\n            panic!();\n        };", "        else {\n            return Ok(ReceiveMessageResponse { messages: host.take_messages() });\n        };")], {"R50"}),
 ("endpoint error instead of end", S, [("        else {\n            // The application has encoutered an unrecoverable error.\n            panic!();\n        };", "        else {\n            return Err(Status::new(micro_rpc::StatusCode::Internal));\n        };")], {"R50"}),
 ("endpoint result ignored", S, [("        let Ok(()) = self\n            .driver\n            .receive_message(&mut host, request.instant, request.message)\n        else {\n            // The application has encoutered an unrecoverable error.\n            panic!();\n        };", "        let _ = self\n            .driver\n            .receive_message(&mut host, request.instant, request.message);")], {"R50"}),
 ("endpoint message lost", S, [("            .receive_message(&mut host, request.instant, request.message)\n        else", "            .receive_message(&mut host, request.instant, None)\n        else")], {"R50"}),
 ("endpoint instant", S, [("            .receive_message(&mut host, request.instant, request.message)\n        else", "            .receive_message(&mut host, 0, request.message)\n        else")], {"R50"}),
 ("endpoint empty reply", S, [("        let response = ReceiveMessageResponse {\n            messages: host.take_messages(),", "        let response = ReceiveMessageResponse {\n            messages: Vec::new(),")], {"R50"}),
 ("endpoint other host", S, [("        let response = ReceiveMessageResponse {\n            messages: host.take_messages(),", "        let mut host = ApplicationHost::new();\n        let response = ReceiveMessageResponse {\n            messages: host.take_messages(),")], {"R50"}),
 ("endpoint reversed", S, [("        let response = ReceiveMessageResponse {\n            messages: host.take_messages(),", "        let mut messages = host.take_messages();\n        messages.reverse();\n        let response = ReceiveMessageResponse {\n            messages,")], {"R50"}),
 ("endpoint truncated", S, [("        let response = ReceiveMessageResponse {\n            messages: host.take_messages(),", "        host.messages.truncate(8);\n        let response = ReceiveMessageResponse {\n            messages: host.take_messages(),")], {"R50"}),
 ("endpoint skipped", S, [("        let response = ReceiveMessageResponse {\n            messages: host.take_messages(),", "        let response = ReceiveMessageResponse {\n            messages: host.take_messages().into_iter().skip(1).collect(),")], {"R50"}),
 ("endpoint only with message", S, [("        let Ok(()) = self\n            .driver", "        if request.message.is_none() {\n            return Ok(ReceiveMessageResponse { messages: Vec::new() });\n        }\n        let Ok(()) = self\n            .driver")], {"R50"}),
 ("endpoint twice", S, [("        let Ok(()) = self\n            .driver", "        let _ = self.driver.receive_message(&mut host, request.instant, request.message.clone());\n        let Ok(()) = self\n            .driver")], {"R50"}),
 ("host replaces", S, [("        self.messages.append(&mut messages)", "        self.messages = mem::take(&mut messages)")], {"R50"}),
 ("host once", S, [("        self.messages.append(&mut messages)", "        if self.messages.is_empty() {\n            self.messages.append(&mut messages)\n        }")], {"R50"}),
 ("host front", S, [("        self.messages.append(&mut messages)", "        for message in messages.drain(..) {\n            self.messages.insert(0, message);\n        }")], {"R50"}),
 ("host skips", S, [("        self.messages.append(&mut messages)", "        self.messages.extend(messages.drain(..).filter(|m| m.msg.is_some()))")], {"R50"}),
 ("host dedup", S, [("        self.messages.append(&mut messages)", "        messages.dedup();\n        self.messages.append(&mut messages)")], {"R50"}),
 ("host one", S, [("        self.messages.append(&mut messages)", "        if let Some(message) = messages.pop() {\n            self.messages.push(message);\n        }")], {"R50"}),
 ("loop survives", S, [("                .receive_message(&mut host, request.instant, request.message)\n                .expect(\"application has encountered an unrecoverable error\");", "                .receive_message(&mut host, request.instant, request.message)\n                .ok();")], {"R51"}),
 ("loop continues", S, [("            driver\n                .receive_message(&mut host, request.instant, request.message)\n                .expect(\"application has encountered an unrecoverable error\");", "            if driver\n                .receive_message(&mut host, request.instant, request.message)\n                .is_err()\n            {\n                continue;\n            }")], {"R51"}),
 ("loop host kept", S, [("        while let Some((request, tx)) = rx.blocking_recv() {\n            let mut host = ApplicationHost::new();", "        let mut host = ApplicationHost::new();\n        while let Some((request, tx)) = rx.blocking_recv() {"), ("            tx.send(Ok(ReceiveMessageResponse {\n                messages: host.take_messages(),", "            tx.send(Ok(ReceiveMessageResponse {\n                messages: host.messages.clone(),")], {"R51"}),
 ("loop once", S, [("        while let Some((request, tx)) = rx.blocking_recv() {", "        if let Some((request, tx)) = rx.blocking_recv() {")], {"R51"}),
 ("loop instant", S, [("                .receive_message(&mut host, request.instant, request.message)\n                .expect(", "                .receive_message(&mut host, request.instant / 10, request.message)\n                .expect(")], {"R51"}),
 ("loop new driver", S, [("            let mut host = ApplicationHost::new();\n            driver\n", "            let mut host = ApplicationHost::new();\n            if request.message.is_none() {\n                tx.send(Ok(ReceiveMessageResponse { messages: host.take_messages() })).unwrap();\n                continue;\n            }\n            driver\n")], {"R51"}),
 ("loop two", S, [("        let join_handle = tokio::task::spawn_blocking(move || {\n            Self::run_driver_loop(factory(), channel, evidence, logger, rx)\n        });", "        let (_unused, rx2) = mpsc::channel::<(\n            ReceiveMessageRequest,\n            oneshot::Sender<Result<ReceiveMessageResponse, Status>>,\n        )>(1);\n        let _ = rx;\n        let join_handle = tokio::task::spawn_blocking(move || {\n            Self::run_driver_loop(factory(), channel, evidence, logger, rx2)\n        });")], {"R51"}),
 ("drop order", S, [("        drop(self.sender.take());\n        if let Err(err) =", "        if let Err(err) ="), ("            std::panic::resume_unwind(Box::new(err));\n        }", "            std::panic::resume_unwind(Box::new(err));\n        }\n        drop(self.sender.take());")], {"R51"}),
 ("async error lost", S, [("            .map_err(|err| tonic::Status::internal(format!(\"failed to receive response: {}\", err)))?\n            .map_err(|err| tonic::Status::new((err.code as i32).into(), err.message))?;\n        Ok(Response::new(response))", "            .unwrap_or_else(|_| Ok(ReceiveMessageResponse::default()))\n            .map_err(|err| tonic::Status::new((err.code as i32).into(), err.message))?;\n        Ok(Response::new(response))")], {"R51"}),
 ("async reply default", S, [("        Ok(Response::new(response))", "        let _ = response;\n        Ok(Response::new(ReceiveMessageResponse::default()))")], {"R51"}),
 ("wiring binder", S, [("                    Box::new(crate::session::OakContainersSessionBinderFactory::new(\n                        channel,\n                    )),", "                    Box::new(DefaultOakSessionBinderFactory {}),")], {"R52"}),
 ("wiring attester", S, [("                    Box::new(crate::session::OakContainersAttesterFactory::new(evidence)),", "                    Box::new(DefaultOakAttesterFactory {}),")], {"R52"}),
 ("wiring lameduck", "runtime/src/driver.rs", [("            lameduck_mode: false,\n", "            lameduck_mode: true,\n")], {"R52"}),
 ("program level", AC, [("log::LevelFilter::Warn", "log::LevelFilter::Debug")], {"R53"}),
 ("program no level", TS, [("    log::set_max_level(log::LevelFilter::Warn);\n", "")], {"R53"}),
 ("program level late", TC, [("    log::set_max_level(log::LevelFilter::Warn);\n", ""), ("    let server = EndpointServiceServer::new(service);", "    let server = EndpointServiceServer::new(service);\n    log::set_max_level(log::LevelFilter::Warn);")], {"R53"}),
 ("program trace", CC, [("log::LevelFilter::Warn", "log::LevelFilter::Trace")], {"R53"}),
 ("program later level", WC, [("    let mut orchestrator_client = OrchestratorClient::create(&channel);", "    log::set_max_level(log::LevelFilter::Info);\n    let mut orchestrator_client = OrchestratorClient::create(&channel);")], {"R53"}),
 ("program evidence", WC, [("    let service = TonicApplicationService::new(channel, evidence, /*logger=*/ None, || {", "    let _ = evidence;\n    let service = TonicApplicationService::new(channel, Default::default(), /*logger=*/ None, || {")], {"R53"}),
 ("program layer", CC, [("                system_layer: Some(SystemLayerReferenceValues {\n                    system_image: Some(skip.clone()),\n                }),", "                system_layer: None,")], {"R53"}),
 ("refactor endpoint match", S, [("        let Ok(()) = self\n            .driver\n            .receive_message(&mut host, request.instant, request.message)\n        else {\n            // The application has encoutered an unrecoverable error.\n            panic!();\n        };\n\n        let response = ReceiveMessageResponse {\n            messages: host.take_messages(),\n        };\n\n        Ok(response)", "        let ReceiveMessageRequest { instant, message } = request;\n        match self.driver.receive_message(&mut host, instant, message) {\n            Ok(()) => Ok(ReceiveMessageResponse {\n                messages: host.messages,\n            }),\n            Err(err) => panic!(\"application error: {}\", err),\n        }")], None),
 ("refactor endpoint expect", S, [("        let Ok(()) = self\n            .driver\n            .receive_message(&mut host, request.instant, request.message)\n        else {\n            // The application has encoutered an unrecoverable error.\n            panic!();\n        };\n", "        self.driver\n            .receive_message(&mut host, request.instant, request.message)\n            .expect(\"unrecoverable\");\n")], None),
 ("refactor host extend", S, [("    fn send_messages(&mut self, mut messages: Vec<OutMessage>) {\n        self.messages.append(&mut messages)", "    fn send_messages(&mut self, messages: Vec<OutMessage>) {\n        self.messages.extend(messages)")], None),
 ("refactor host loop", S, [("    fn send_messages(&mut self, mut messages: Vec<OutMessage>) {\n        self.messages.append(&mut messages)", "    fn send_messages(&mut self, messages: Vec<OutMessage>) {\n        for message in messages {\n            self.messages.push(message);\n        }")], None),
 ("refactor loop", S, [("        while let Some((request, tx)) = rx.blocking_recv() {\n            let mut host = ApplicationHost::new();\n            driver\n                .receive_message(&mut host, request.instant, request.message)\n                .expect(\"application has encountered an unrecoverable error\");\n            tx.send(Ok(ReceiveMessageResponse {\n                messages: host.take_messages(),\n            }))\n            .expect(\"failed to send receive_message response\");\n        }", "        loop {\n            let Some((request, reply)) = rx.blocking_recv() else {\n                return;\n            };\n            let mut host = ApplicationHost::new();\n            if driver.receive_message(&mut host, request.instant, request.message).is_err() {\n                panic!(\"application has encountered an unrecoverable error\");\n            }\n            let messages = host.take_messages();\n            let response = ReceiveMessageResponse { messages };\n            reply.send(Ok(response)).expect(\"failed to send receive_message response\");\n        }")], None),
 ("refactor wiring", S, [("                RaftSimple::new(),\n                Box::new(MemoryStorage::new),\n                DefaultSnapshotProcessor::new(\n                    Box::new(DefaultSnapshotSender::new()),\n                    Box::new(DefaultSnapshotReceiver::new()),\n                ),\n                actor,", "                RaftSimple::new(),\n                Box::new(|logger, max| MemoryStorage::new(logger, max)),\n                Self::snapshots(),\n                actor,"), ("impl<A: Actor> ApplicationService<A> {\n", "impl<A: Actor> ApplicationService<A> {\n    fn snapshots() -> DefaultSnapshotProcessor {\n        let receiver = Box::new(DefaultSnapshotReceiver::new());\n        DefaultSnapshotProcessor::new(Box::new(DefaultSnapshotSender::new()), receiver)\n    }\n\n")], None),
 ("refactor program", CC, [("    let service = TonicApplicationService::new(channel, evidence, /*logger=*/ None, || {\n        CounterActor::new_with_reference_values(get_reference_values())\n    });\n", "    let factory = || CounterActor::new_with_reference_values(get_reference_values());\n    let service = TonicApplicationService::new(channel, evidence, None, factory);\n")], None),
 ("refactor program helper", AC, [("#[entrypoint]\n", "fn limit_logging() {\n    log::set_max_level(log::LevelFilter::Warn);\n}\n\n#[entrypoint]\n"), ("    log::set_max_level(log::LevelFilter::Warn);\n\n    let mut inv", "    limit_logging();\n\n    let mut inv"), ], None),
]
