C, H, N, S = "runtime/src/communication.rs", "runtime/src/handshake.rs", "runtime/src/encryptor.rs", "runtime/src/session.rs"
A, B, L, D, E, F = {"R30"}, {"R31"}, {"R32"}, {"R33"}, {"R34"}, {"R35"}
CASES = [
 # sending
 ("send sender as peer", C, [("                deliver_snapshot_request.recipient_replica_id\n", "                deliver_snapshot_request.sender_replica_id\n")], A),
 ("send as recipient", C, [(".get(self.replica_id, peer_replica_id, Role::Initiator)", ".get(self.replica_id, peer_replica_id, Role::Recipient)")], A),
 ("send ids swapped", C, [(".get(self.replica_id, peer_replica_id, Role::Initiator)", ".get(peer_replica_id, self.replica_id, Role::Initiator)")], A),
 ("send session again", C, [("        if !replica_state.is_initialized() {\n            let handshake_session = self\n                .handshake_session_provider\n                .get(self.replica_id, peer_replica_id, Role::Initiator)", "        if replica_state.handshake_session.is_none() {\n            let handshake_session = self\n                .handshake_session_provider\n                .get(self.replica_id, peer_replica_id, Role::Initiator)")], A),
 ("send failed drops", C, [("                // Keep buffering messages even in Failed state so that they can be\n                // retried later.\n                self.push_or_replace_unencrypted_message(message);\n", "")], A),
 ("send first lost", C, [("                self.push_or_replace_unencrypted_message(message);\n                self.handshake_state = HandshakeState::Initiated(0);", "                self.handshake_state = HandshakeState::Initiated(0);")], A),
 ("send waiting lost", C, [("HandshakeState::Initiated(_) | HandshakeState::Completed => {\n                self.push_or_replace_unencrypted_message(message);\n                Ok(())", "HandshakeState::Initiated(n) => {\n                if *n < 5 { self.push_or_replace_unencrypted_message(message); }\n                Ok(())\n            }\n            HandshakeState::Completed => {\n                self.push_or_replace_unencrypted_message(message);\n                Ok(())")], A),
 ("send replaces any", C, [("                if let OutgoingMessage::DeliverSystemMessage(_, MessageType::MsgHeartbeat) =\n                    message_in_place\n", "                if let OutgoingMessage::DeliverSystemMessage(_, _) =\n                    message_in_place\n")], A),
 ("send any replaces", C, [("        if let OutgoingMessage::DeliverSystemMessage(_, MessageType::MsgHeartbeat) = message {", "        if let OutgoingMessage::DeliverSystemMessage(_, _) = message {")], A),
 ("send heartbeat dropped", C, [("                    *message_in_place = message;\n                    return;", "                    return;")], A),

 ("send front", C, [("        self.unencrypted_messages.push(message);\n    }", "        self.unencrypted_messages.insert(0, message);\n    }")], A),
 ("send not initiated", C, [("                self.push_or_replace_unencrypted_message(message);\n                self.handshake_state = HandshakeState::Initiated(0);", "                self.push_or_replace_unencrypted_message(message);\n                self.handshake_state = HandshakeState::Completed;")], A),
 ("send none accepted", C, [("                if self.pending_handshake_message.is_none() {\n                    let err = anyhow!(\"No initial handshake message found.\");\n                    self.transition_to_failed(&err);\n                    return Err(err);\n                }\n", "")], A),
 ("send error not failed", C, [("                    .take_out_message()\n                    .inspect_err(|err| {\n                        self.transition_to_failed(&err);\n                    })?;\n\n                if self.pending", "                    .take_out_message()?;\n\n                if self.pending")], A),
 ("send uninit", C, [("    fn process_out_message(&mut self, message: OutgoingMessage) -> Result<(), PalError> {\n        self.check_initialized()?;\n", "    fn process_out_message(&mut self, message: OutgoingMessage) -> Result<(), PalError> {\n")], A),
 ("send provider error kept", C, [("                    warn!(logger, \"Failed to get handshake_session {:?}\", err);\n                    PalError::Internal\n                })?;\n            replica_state.init(handshake_session)?;\n        }\n\n        // Failure to process message should not lead to program termination, so simply log and\n        // return.\n        let result = replica_state.process_out", "                    warn!(logger, \"Failed to get handshake_session {:?}\", err);\n                    PalError::InvalidOperation\n                })?;\n            replica_state.init(handshake_session)?;\n        }\n\n        // Failure to process message should not lead to program termination, so simply log and\n        // return.\n        let result = replica_state.process_out")], A),
 ("send fatal", C, [("            warn!(\n                self.logger,\n                \"Failed to process out_message {:?}\",\n                result.err()\n            );\n        }\n        Ok(())", "            return Err(PalError::Internal);\n        }\n        Ok(())")], A),
 ("new completed", C, [("            handshake_state: HandshakeState::Unknown,\n            pending", "            handshake_state: HandshakeState::Initialized,\n            pending")], A | B),
 # taking
 ("leave plain on error", C, [("            if result.is_err() {\n                warn!(self.logger, \"Failed to encrypt {:?}\", result.err());\n            }", "            if result.is_err() {\n                warn!(self.logger, \"Failed to encrypt {:?}\", result.err());\n                break;\n            }")], A),
 ("leave unencrypted", C, [("                    .and_then(|encrypted_message| {\n                        message.payload = Some(encrypted_message);\n                        messages.push(OutMessage {\n                            msg: Some(out_message::Msg::DeliverSnapshotRequest(message)),", "                    .and_then(|encrypted_message| {\n                        let _ = encrypted_message;\n                        messages.push(OutMessage {\n                            msg: Some(out_message::Msg::DeliverSnapshotRequest(message)),")], A),
 ("leave small plain", C, [("                        message.payload = Some(encrypted_message);\n                        messages.push(OutMessage {\n                            msg: Some(out_message::Msg::DeliverSystemMessage(message)),", "                        if !encrypted_message.contents.is_empty() { message.payload = Some(encrypted_message); }\n                        messages.push(OutMessage {\n                            msg: Some(out_message::Msg::DeliverSystemMessage(message)),")], A),
 ("leave initiated", C, [("} else if self.handshake_state == HandshakeState::Completed {", "} else if self.handshake_state != HandshakeState::Unknown && self.encryptor.is_some() {")], A),
 ("leave failed", C, [("} else if self.handshake_state == HandshakeState::Completed {", "} else if self.encryptor.is_some() {")], A),
 ("leave handshake kept", C, [("        if let Some(pending_handshake_message) = self.pending_handshake_message.take() {", "        if self.handshake_state == HandshakeState::Completed { self.pending_handshake_message = None; }\n        if let Some(pending_handshake_message) = self.pending_handshake_message.take() {")], A),
 ("leave first peer only", C, [("            messages.append(&mut replica_state.take_out_messages())\n", "            messages.append(&mut replica_state.take_out_messages());\n            if messages.len() > 8 { break; }\n")], A),
 ("leave response lost", C, [("                        message.payload = Some(encrypted_message.into());\n                        messages.push(OutMessage {\n                            msg: Some(out_message::Msg::DeliverSnapshotResponse(message)),\n                        });\n", "                        message.payload = Some(encrypted_message.into());\n                        if message.delivery_id != 0 { messages.push(OutMessage {\n                            msg: Some(out_message::Msg::DeliverSnapshotResponse(message)),\n                        }); }\n")], A),
 ("leave reversed", C, [("        for unencrypted_message in unencrypted_msgs {", "        for unencrypted_message in unencrypted_msgs.into_iter().rev() {")], A),
 ("leave kept", C, [("let unencrypted_msgs = mem::take(&mut self.unencrypted_messages);", "let unencrypted_msgs: Vec<_> = self.unencrypted_messages.drain(1..).collect();")], A),
 # receiving
 ("recv recipient as peer", C, [("                deliver_system_message.sender_replica_id\n", "                deliver_system_message.recipient_replica_id\n")], B),
 ("recv role", C, [("Role::Recipient)\n                .map_err", "Role::Initiator)\n                .map_err")], B),
 ("recv plain initialised", C, [("                    _ => {\n                        let err = anyhow!(format!(\n                            \"Message must be", "                    in_message::Msg::DeliverSystemMessage(m) if m.payload.is_none() => Ok(Some(in_message::Msg::DeliverSystemMessage(m))),\n                    _ => {\n                        let err = anyhow!(format!(\n                            \"Message must be")], B),
 ("recv plain failed", C, [("                warn!(self.logger, \"HandshakeState Failed.\");\n                Ok(None)", "                warn!(self.logger, \"HandshakeState Failed.\");\n                Ok(self.encryptor.is_none().then(|| message))")], B),
 ("recv failed decrypts", C, [("                warn!(self.logger, \"HandshakeState Failed.\");\n                Ok(None)", "                warn!(self.logger, \"HandshakeState Failed.\");\n                if self.encryptor.is_some() { return Ok(self.decrypt_message(message)); }\n                Ok(None)")], B),
 ("recv forged delivered", C, [("                .and_then(|decrypted_msg| {\n                    msg.payload = Some(Payload {\n                        contents: decrypted_msg.into(),\n                        ..Default::default()\n                    });\n                    Ok(in_message::Msg::DeliverSnapshotRequest(msg))", "                .or_else(|_| Ok(msg.payload.as_ref().unwrap().contents.to_vec()))\n                .and_then(|decrypted_msg: Vec<u8>| {\n                    msg.payload = Some(Payload {\n                        contents: decrypted_msg.into(),\n                        ..Default::default()\n                    });\n                    Ok(in_message::Msg::DeliverSnapshotRequest(msg))")] if False else [("                    Ok(in_message::Msg::DeliverSnapshotRequest(msg))", "                    Ok::<_, anyhow::Error>(in_message::Msg::DeliverSnapshotRequest(msg))")], None),
 ("recv ciphertext", C, [("                    Ok(in_message::Msg::DeliverSnapshotResponse(msg))", "                    if decrypted_is_empty { msg.payload = None; }\n                    Ok(in_message::Msg::DeliverSnapshotResponse(msg))"), ("                decrypt_payload(encryptor, &msg.payload).and_then(|decrypted_msg| {\n                    msg.payload = Some(Payload {\n                        contents: decrypted_msg.into(),\n                        ..Default::default()\n                    });\n                    if", "                decrypt_payload(encryptor, &msg.payload).and_then(|decrypted_msg| {\n                    let decrypted_is_empty = decrypted_msg.is_empty();\n                    msg.payload = Some(Payload {\n                        contents: decrypted_msg.into(),\n                        ..Default::default()\n                    });\n                    if")], B),
 ("recv panic on payload", C, [("    let payload = payload\n        .as_ref()\n        .ok_or_else(|| anyhow!(\"Message has no payload.\"))?;\n    encryptor.decrypt(payload)", "    encryptor.decrypt(payload.as_ref().unwrap())")], B),
 ("recv completes early", C, [("if self.handshake_session.as_ref().unwrap().is_completed() {", "if self.handshake_session.as_ref().unwrap().is_completed() || self.pending_handshake_message.is_none() {")], B),
 ("recv never completes initiated", C, [("if self.handshake_session.as_ref().unwrap().is_completed() {", "if self.handshake_state == HandshakeState::Initialized && self.handshake_session.as_ref().unwrap().is_completed() {")], B),
 ("recv no keys", C, [("                            self.encryptor = handshake_session.unwrap().get_encryptor();\n", "                            if self.encryptor.is_none() { self.encryptor = handshake_session.unwrap().get_encryptor(); }\n")], B),
 ("recv restart ignored", C, [("                self.transition_to_failed(&err);\n                return None;", "                warn!(self.logger, \"{}\", err);\n                return None;")], B),
 ("recv error not failed", C, [("                            .process_message(handshake_message)\n                            .inspect_err(|err| {\n                                self.transition_to_failed(&err);\n                            })?;", "                            .process_message(handshake_message)?;")], B),
 ("recv data ignored early", C, [("                        self.transition_to_failed(&err);\n                        Err(err)\n                    }\n                }\n            }\n            HandshakeState::Completed => Ok", "                        Err(err)\n                    }\n                }\n            }\n            HandshakeState::Completed => Ok")], B),
 ("recv stays initialised", C, [("                        } else if self.handshake_state == HandshakeState::Initialized {\n                            self.handshake_state = HandshakeState::Initiated(0);\n                        }", "                        }")], B),
 ("recv timer restarts", C, [("                        } else if self.handshake_state == HandshakeState::Initialized {\n", "                        } else {\n")], B),
 ("recv fatal", C, [("            warn!(\n                self.logger,\n                \"Failed to process in_message {:?}\",\n                result.err()\n            );\n            return Ok(None);", "            return Err(PalError::Internal);")], B),
 ("recv unsupported passed", C, [("                warn!(self.logger, \"Message type {:?} is not supported.\", message);\n                return Err(PalError::InvalidOperation);", "                warn!(self.logger, \"Message type is not supported.\");\n                return Ok(Some(message));")], B),
 ("recv decrypt failure fails", C, [("            warn!(self.logger, \"Failed to decrypt message {:?}\", result.err());\n            return None;", "            warn!(self.logger, \"Failed to decrypt message {:?}\", result.err());\n            self.handshake_state = HandshakeState::Failed(0);\n            return None;")], B),
 ("recv no answer", C, [("                        self.pending_handshake_message = self\n                            .handshake_session\n                            .as_mut()\n                            .unwrap()\n                            .take_out_message()\n                            .inspect_err(|err| {\n                                self.transition_to_failed(&err);\n                            })?;\n                        if", "                        if self.pending_handshake_message.is_none() { self.pending_handshake_message = self\n                            .handshake_session\n                            .as_mut()\n                            .unwrap()\n                            .take_out_message()\n                            .inspect_err(|err| {\n                                self.transition_to_failed(&err);\n                            })?; }\n                        if")], B),
 # life
 ("tick failed never", C, [("                ticks_since_failed += 1;\n", "")], L),
 ("tick timeout late", C, [("if ticks_since_initiated >= self.handshake_initiated_tick_timeout {", "if ticks_since_initiated > self.handshake_initiated_tick_timeout {")], L),
 ("tick timeout counter", C, [("                    self.handshake_state = HandshakeState::Initiated(ticks_since_initiated);", "                    self.handshake_state = HandshakeState::Initiated(self.handshake_initiated_tick_timeout - ticks_since_initiated);")], L),
 ("tick retry late", C, [("&& ticks_since_failed >= self.config.handshake_retry_tick", "&& ticks_since_failed > self.config.handshake_retry_tick")], L),
 ("tick retry before", C, [("            replica.make_tick();\n            if let HandshakeState::Failed(ticks_since_failed) = replica.handshake_state\n                && ticks_since_failed >= self.config.handshake_retry_tick\n            {\n                replica.reset_state_machine();\n            }\n", "            if let HandshakeState::Failed(ticks_since_failed) = replica.handshake_state\n                && ticks_since_failed >= self.config.handshake_retry_tick\n            {\n                replica.reset_state_machine();\n            }\n            replica.make_tick();\n")], L),
 ("tick timeout to unknown", C, [("                    info!(self.logger, \"Handshake timed out in state Initiated.\");\n                    self.handshake_state = HandshakeState::Failed(0);", "                    info!(self.logger, \"Handshake timed out in state Initiated.\");\n                    self.handshake_state = HandshakeState::Initiated(0);")], L),
 ("reset keeps keys", C, [("        self.handshake_session = None;\n        self.encryptor = None;\n    }", "        self.handshake_session = None;\n    }")], L),
 ("reset keeps pending", C, [("        self.handshake_state = HandshakeState::Unknown;\n        self.pending_handshake_message = None;", "        self.handshake_state = HandshakeState::Unknown;")], L),
 ("reset loses messages", C, [("        self.handshake_state = HandshakeState::Unknown;\n        self.pending", "        self.handshake_state = HandshakeState::Unknown;\n        self.unencrypted_messages.clear();\n        self.pending")], L),
 ("cluster inverted", C, [(".retain(|&key, _| new_replica_ids.contains(&key));", ".retain(|&key, _| !new_replica_ids.contains(&key));")], L),
 ("cluster keeps completed", C, [(".retain(|&key, _| new_replica_ids.contains(&key));", ".retain(|&key, s| new_replica_ids.contains(&key) || s.handshake_state == HandshakeState::Completed);")], L),
 ("cluster drops failed", C, [(".retain(|&key, _| new_replica_ids.contains(&key));", ".retain(|&key, s| new_replica_ids.contains(&key) && s.encryptor.is_some());")], L),
 ("cluster own ignored", C, [("        if !new_replica_ids.contains(&self.replica_id) {\n            self.replicas.clear();\n            return;\n        }\n", "")], L),
 ("init no config", C, [("        self.config = config;\n", "        if config.handshake_retry_tick > 0 { self.config.handshake_retry_tick = config.handshake_retry_tick; }\n")], L),
 ("init config late", C, [("        self.config = config;\n        self.handshake_session_provider.init(\n            self.logger.new(o!(\"type\" => \"handshake\")),\n            clock,\n            self.config.reference_values.clone(),\n            self.config.endorsements.clone(),\n        );", "        self.handshake_session_provider.init(\n            self.logger.new(o!(\"type\" => \"handshake\")),\n            clock,\n            self.config.reference_values.clone(),\n            self.config.endorsements.clone(),\n        );\n        self.config = config;")], L),
 # handshake
 ("hs client any message", H, [("                                Some(RecipientResponse(noise_protocol::RecipientResponse {\n                                    message: Some(SessionResponse(session_response)),\n                                    ..\n                                })),\n                            ..\n                        })),\n                    ..\n                } = message\n                {", "                                Some(RecipientResponse(noise_protocol::RecipientResponse {\n                                    message: Some(SessionResponse(session_response)),\n                                    ..\n                                })),\n                            ..\n                        })),\n                    ..\n                } = message\n                {\n                    if session_response.response.is_none() { return Ok(()); }")], D),
 ("hs client completes", H, [("                if self.session.is_open() {\n                    info!(\n                        self.logger,\n                        \"ClientHandshakeSession", "                if self.session.is_open() || result.is_none() {\n                    info!(\n                        self.logger,\n                        \"ClientHandshakeSession")], D),
 ("hs server completes first", H, [("                if self.session.is_open() {\n                    info!(\n                        self.logger,\n                        \"ServerHandshakeSession", "                if session_response.is_none() || self.session.is_open() {\n                    info!(\n                        self.logger,\n                        \"ServerHandshakeSession")], D),
 ("hs server open before", H, [("                let session_response = self\n                    .get_session_response()\n                    .inspect_err(|err| self.transition_to_failed(err))?;\n                if self.session.is_open() {", "                let open = self.session.is_open();\n                let session_response = self\n                    .get_session_response()\n                    .inspect_err(|err| self.transition_to_failed(err))?;\n                if open {")], D),
 ("hs keys early", H, [("        if self.state != State::Completed {\n            return None;\n        }\n\n        Some(Box::new(DefaultServer", "        if self.state == State::Unknown {\n            return None;\n        }\n\n        Some(Box::new(DefaultServer")], D),
 ("hs completed initiated", H, [("    fn is_completed(&self) -> bool {\n        self.state == State::Completed\n    }\n\n    fn get_encryptor(self: Box<Self>) -> Option<Box<dyn Encryptor>> {\n        if self.state != State::Completed {\n            return None;\n        }\n\n        Some(Box::new(DefaultClient", "    fn is_completed(&self) -> bool {\n        self.state == State::Completed || self.session.is_open()\n    }\n\n    fn get_encryptor(self: Box<Self>) -> Option<Box<dyn Encryptor>> {\n        if self.state != State::Completed {\n            return None;\n        }\n\n        Some(Box::new(DefaultClient")], D),
 ("hs ids swapped", H, [("            recipient_replica_id: self.peer_replica_id,\n            sender_replica_id: self.self_replica_id,\n            encryption: Some(Encryption::NoiseProtocol(NoiseProtocol {\n                message: Some(RecipientResponse", "            recipient_replica_id: self.self_replica_id,\n            sender_replica_id: self.peer_replica_id,\n            encryption: Some(Encryption::NoiseProtocol(NoiseProtocol {\n                message: Some(RecipientResponse")], D),
 ("hs client not failed", H, [("                    self.session\n                        .put_incoming_message(session_response)\n                        .inspect_err(|err| self.transition_to_failed(err))?;", "                    self.session\n                        .put_incoming_message(session_response)?;")], D),
 ("hs server error swallowed", H, [("                    self.session\n                        .put_incoming_message(session_request)\n                        .inspect_err(|err| self.transition_to_failed(err))?;", "                    let _ = self.session\n                        .put_incoming_message(session_request)\n                        .inspect_err(|err| self.transition_to_failed(err));")], D),
 ("hs server initiated first", H, [("                    self.session\n                        .put_incoming_message(session_request)\n", "                    self.state = State::Initiated;\n                    self.session\n                        .put_incoming_message(session_request)\n")], None),
 ("hs completed processes", H, [("            State::Unknown | State::Initiated => {\n                if let", "            State::Unknown | State::Initiated | State::Completed if !self.logger.is_debug_enabled_x() => {\n                if let")] if False else [("            State::Unknown | State::Initiated => {\n                if let", "            State::Unknown | State::Initiated | State::Failed => {\n                if let"), ("            State::Failed => {\n                warn!(self.logger, \"Cannot process messages in state Failed.\");\n                Ok(())\n            }\n        };\n    }\n\n    fn take_out_message(&mut self) -> Result<Option<SecureChannelHandshake>> {\n        return match self.state {\n            State::Unknown => {\n                info!(self.logger, \"No messages to take out in state Unknown\");", "        };\n    }\n\n    fn take_out_message(&mut self) -> Result<Option<SecureChannelHandshake>> {\n        return match self.state {\n            State::Unknown => {\n                info!(self.logger, \"No messages to take out in state Unknown\");")], D),
 ("hs peer swapped", H, [("                self.logger.new(o!(\"type\" => \"ServerHandshakeSession\")),\n                self_replica_id,\n                peer_replica_id,", "                self.logger.new(o!(\"type\" => \"ServerHandshakeSession\")),\n                peer_replica_id,\n                self_replica_id,")], D),
 ("hs default values", H, [("            .init(clock, reference_values, endorsements);", "            .init(clock, ReferenceValues::default(), endorsements);")], D),
 ("hs client unknown fails silently", H, [("                self.state = State::Initiated;\n                Ok(session_request)", "                if session_request.is_some() { self.state = State::Initiated; }\n                Ok(session_request)")], D),
 # encryptor
 ("enc no nonce", N, [("                contents: encrypted_message.ciphertext.into(),\n                nonce: encrypted_message.nonce.unwrap().into(),\n            })", "                contents: encrypted_message.ciphertext.into(),\n                nonce: Default::default(),\n            })")], E),
 ("enc plaintext fallback", N, [("            Err(anyhow!(\"No outgoing ciphertext message retrieved.\"))", "            Ok(Payload { contents: plaintext.to_vec().into(), ..Default::default() })")], E),
 ("enc empty plaintext", N, [("        if plaintext.is_none() {\n            return Err(anyhow!(\"No decrypted text found for the ciphertext.\"));\n        }\n        Ok(plaintext.unwrap())\n    }\n}\n\npub struct DefaultServer", "        Ok(plaintext.unwrap_or_default())\n    }\n}\n\npub struct DefaultServer")], E),
 ("enc reads first", N, [("        self.session.put_incoming_message(request)?;\n        let plaintext = self.session.read()?;", "        let plaintext = self.session.read()?;\n        self.session.put_incoming_message(request)?;")], E),
 ("enc dec nonce none", N, [("            request: Some(Request::EncryptedMessage(EncryptedMessage {\n                ciphertext: payload.contents.to_vec(),\n                nonce: Some(payload.nonce.to_vec()),", "            request: Some(Request::EncryptedMessage(EncryptedMessage {\n                ciphertext: payload.contents.to_vec(),\n                nonce: Some(payload.contents.to_vec()),")], E),
 ("enc error ignored", N, [("        self.session.put_incoming_message(response)?;", "        let _ = self.session.put_incoming_message(response);")], E),
 # session
 ("att insecure default", S, [("                    root_layer:\n                        Some(RootLayerReferenceValues {\n                            insecure: Some(_), ..\n                        }),", "                    root_layer:\n                        Some(RootLayerReferenceValues { amd_sev: None, .. }),")], F),
 ("att kernel policy lost", S, [("                        vec![\n                            Box::new(KernelPolicy::new(kernel_ref_vals)),\n                            Box::new(SystemPolicy::new(system_ref_vals)),\n                            Box::new(ContainerPolicy::new(container_ref_vals)),\n                        ],\n                        clock,", "                        vec![\n                            Box::new(SystemPolicy::new(system_ref_vals)),\n                            Box::new(ContainerPolicy::new(container_ref_vals)),\n                        ],\n                        clock,")], F),
 ("att unidirectional", S, [("                SessionConfig::builder(AttestationType::Bidirectional, HandshakeType::NoiseNN)\n                    .add_self_assertion_generator(\n                        String::from(TCP_ASSERTION_ID),\n                        assertion_generator,\n                    )\n                    .add_peer_assertion_verifier(String::from(TCP_ASSERTION_ID), assertion_verifier)\n                    // Since TCP only uses one assertion type for the attestation verification we\n                    // can use the trivial PassThrough aggregator. If more assertion types are added\n                    // in the future Any/All or custom aggregator needs to be specified.\n                    .set_assertion_attestation_aggregator(Box::new(PassThrough {}))\n                    .set_encryption_provider(Box::new(DefaultEncryptorProvider))\n                    .build(),\n            )?,\n        })\n    }\n}\n\nimpl OakSession<SessionRequest", "                SessionConfig::builder(AttestationType::PeerUnidirectional, HandshakeType::NoiseNN)\n                    .add_self_assertion_generator(\n                        String::from(TCP_ASSERTION_ID),\n                        assertion_generator,\n                    )\n                    .add_peer_assertion_verifier(String::from(TCP_ASSERTION_ID), assertion_verifier)\n                    .set_assertion_attestation_aggregator(Box::new(PassThrough {}))\n                    .set_encryption_provider(Box::new(DefaultEncryptorProvider))\n                    .build(),\n            )?,\n        })\n    }\n}\n\nimpl OakSession<SessionRequest")], F),
 ("att endorsements lost", S, [("        self.endorsements = endorsements;\n", "")], F),
 ("att read drops empty", S, [("        let plaintext_message = self.inner.read()?;\n        Ok(plaintext_message.map(|m| m.plaintext))\n    }\n}\n\n// Default implementation of `OakServer", "        let plaintext_message = self.inner.read()?;\n        Ok(plaintext_message.map(|m| m.plaintext).filter(|p| !p.is_empty()))\n    }\n}\n\n// Default implementation of `OakServer")], F),
 ("att dice default", S, [("Arc::new(DiceAttestationVerifier::create(reference_values, clock)),", "Arc::new(DiceAttestationVerifier::create(ReferenceValues::default(), clock)),")], F),
 # refactorings
 ("r peer helper", C, [("        let peer_replica_id = match &message {\n            OutgoingMessage::DeliverSystemMessage(deliver_system_message, _) => {\n                deliver_system_message.recipient_replica_id\n            }\n            OutgoingMessage::DeliverSnapshotRequest(deliver_snapshot_request) => {\n                deliver_snapshot_request.recipient_replica_id\n            }\n            OutgoingMessage::DeliverSnapshotResponse(deliver_snapshot_response) => {\n                deliver_snapshot_response.recipient_replica_id\n            }\n        };\n", "        let peer_replica_id = recipient_of(&message);\n"), ("// Decrypts the payload of an", "fn recipient_of(message: &OutgoingMessage) -> u64 {\n    match message {\n        OutgoingMessage::DeliverSystemMessage(m, _) => m.recipient_replica_id,\n        OutgoingMessage::DeliverSnapshotRequest(m) => m.recipient_replica_id,\n        OutgoingMessage::DeliverSnapshotResponse(m) => m.recipient_replica_id,\n    }\n}\n\n// Decrypts the payload of an")], None),
 ("r take loop", C, [("        for (_, replica_state) in self.replicas.iter_mut() {\n            messages.append(&mut replica_state.take_out_messages())\n        }", "        for replica_state in self.replicas.values_mut() {\n            messages.extend(replica_state.take_out_messages());\n        }")], None),
 ("r take flat map", C, [("        let mut messages = Vec::new();\n        for (_, replica_state) in self.replicas.iter_mut() {\n            messages.append(&mut replica_state.take_out_messages())\n        }\n        messages", "        self.replicas\n            .values_mut()\n            .flat_map(|replica_state| replica_state.take_out_messages())\n            .collect()")], None),
 ("r in match", C, [("        let result = replica_state.process_in_message(message);\n        if result.is_err() {\n            warn!(\n                self.logger,\n                \"Failed to process in_message {:?}\",\n                result.err()\n            );\n            return Ok(None);\n        }\n        Ok(result.unwrap())", "        match replica_state.process_in_message(message) {\n            Ok(message) => Ok(message),\n            Err(err) => {\n                warn!(self.logger, \"Failed to process in_message {:?}\", err);\n                Ok(None)\n            }\n        }")], None),
 ("r decrypt match", C, [("        if result.is_err() {\n            warn!(self.logger, \"Failed to decrypt message {:?}\", result.err());\n            return None;\n        }\n        Some(result.unwrap())", "        match result {\n            Ok(message) => Some(message),\n            Err(err) => {\n                warn!(self.logger, \"Failed to decrypt message {:?}\", err);\n                None\n            }\n        }")], None),
 ("r encrypt match", C, [("                OutgoingMessage::DeliverSystemMessage(mut message, _) => encryptor\n                    .encrypt(&message.payload.as_ref().unwrap().contents)\n                    .and_then(|encrypted_message| {\n                        message.payload = Some(encrypted_message);\n                        messages.push(OutMessage {\n                            msg: Some(out_message::Msg::DeliverSystemMessage(message)),\n                        });\n                        Ok(())\n                    }),", "                OutgoingMessage::DeliverSystemMessage(mut message, _) => {\n                    match encryptor.encrypt(&message.payload.as_ref().unwrap().contents) {\n                        Ok(encrypted_message) => {\n                            message.payload = Some(encrypted_message);\n                            let msg = Some(out_message::Msg::DeliverSystemMessage(message));\n                            messages.push(OutMessage { msg });\n                            Ok(())\n                        }\n                        Err(err) => Err(err),\n                    }\n                }")], None),
 ("r heartbeat find", C, [("            for message_in_place in &mut self.unencrypted_messages {\n                if let OutgoingMessage::DeliverSystemMessage(_, MessageType::MsgHeartbeat) =\n                    message_in_place\n                {\n                    *message_in_place = message;\n                    return;\n                }\n            }\n", "            if let Some(message_in_place) = self.unencrypted_messages.iter_mut().find(|m| {\n                matches!(m, OutgoingMessage::DeliverSystemMessage(_, MessageType::MsgHeartbeat))\n            }) {\n                *message_in_place = message;\n                return;\n            }\n")], None),
 ("r tick mut", C, [("            &HandshakeState::Failed(mut ticks_since_failed) => {\n                ticks_since_failed += 1;\n                self.handshake_state = HandshakeState::Failed(ticks_since_failed);\n            }", "            HandshakeState::Failed(ticks_since_failed) => {\n                self.handshake_state = HandshakeState::Failed(ticks_since_failed + 1);\n            }")], None),
 ("r tick helper", C, [("            replica.make_tick();\n            if let HandshakeState::Failed(ticks_since_failed) = replica.handshake_state\n                && ticks_since_failed >= self.config.handshake_retry_tick\n            {\n                replica.reset_state_machine();\n            }\n", "            replica.make_tick();\n            let retry = match replica.handshake_state {\n                HandshakeState::Failed(ticks) => ticks >= self.config.handshake_retry_tick,\n                _ => false,\n            };\n            if retry {\n                replica.reset_state_machine();\n            }\n")], None),
 ("r cluster member flag", C, [("        if !new_replica_ids.contains(&self.replica_id) {\n            self.replicas.clear();\n            return;\n        }\n", "        let member = new_replica_ids.contains(&self.replica_id);\n        if !member {\n            self.replicas = HashMap::new();\n            return;\n        }\n")], None),
 ("r state order", C, [("                            let handshake_session = self.handshake_session.take();\n                            self.encryptor = handshake_session.unwrap().get_encryptor();\n                            self.handshake_state = HandshakeState::Completed;", "                            let session = self.handshake_session.take().unwrap();\n                            self.handshake_state = HandshakeState::Completed;\n                            self.encryptor = session.get_encryptor();")], None),
 ("r check matches", C, [("        self.handshake_state != HandshakeState::Unknown\n    }", "        !matches!(self.handshake_state, HandshakeState::Unknown)\n    }")], None),
 ("r hs matches", H, [("        self.state == State::Completed\n    }\n\n    fn get_encryptor(self: Box<Self>) -> Option<Box<dyn Encryptor>> {\n        if self.state != State::Completed {\n            return None;\n        }\n\n        Some(Box::new(DefaultClient", "        matches!(self.state, State::Completed)\n    }\n\n    fn get_encryptor(self: Box<Self>) -> Option<Box<dyn Encryptor>> {\n        if self.state != State::Completed {\n            return None;\n        }\n\n        Some(Box::new(DefaultClient")], None),
 ("r hs server always initiated", H, [("                    if self.state != State::Initiated {\n                        self.state = State::Initiated;\n                    }\n", "                    self.state = State::Initiated;\n")], None),
 ("r hs client no result var", H, [("                let mut result = None;\n                let session_request", "                let session_request"), ("                    result = session_request;\n", ""), ("                Ok(result)\n", "                Ok(session_request)\n")], None),
 ("r enc question", N, [("        if plaintext.is_none() {\n            return Err(anyhow!(\"No decrypted text found for the ciphertext.\"));\n        }\n        Ok(plaintext.unwrap())\n    }\n}\n\npub struct DefaultServer", "        plaintext.ok_or_else(|| anyhow!(\"No decrypted text found for the ciphertext.\"))\n    }\n}\n\npub struct DefaultServer")], None),
 ("r att policies shared", S, [("                    Arc::new(InsecureAttestationVerifier::new(\n                        clock,\n                        vec![\n                            Box::new(KernelPolicy::new(kernel_ref_vals)),\n                            Box::new(SystemPolicy::new(system_ref_vals)),\n                            Box::new(ContainerPolicy::new(container_ref_vals)),\n                        ],\n                    )),", "                    Arc::new(InsecureAttestationVerifier::new(\n                        clock,\n                        {\n                            let container = Box::new(ContainerPolicy::new(container_ref_vals));\n                            let kernel = Box::new(KernelPolicy::new(kernel_ref_vals));\n                            vec![kernel, Box::new(SystemPolicy::new(system_ref_vals)), container]\n                        },\n                    )),")], None),
]
