T = "src/topic_heir.rs"
PM = "src/packets/mod.rs"
PU = "src/packets/utils.rs"
PE = "src/packets/enums.rs"
H = "src/handler.rs"
A = "src/core/mod.rs"
M = "src/main.rs"
B = "src/core/broker_info.rs"
U = "src/utils.rs"
# (name, expected, edits)
MUTS = [
 ("c01-levels", "C01", [(U, "const MAX_TOPIC_LEVELS: usize = 200;", "const MAX_TOPIC_LEVELS: usize = 65_535;")]),
 ("c01-index", "C01", [(U, "topic.first().ok_or(1)?.to_string()", "topic[0].to_string()"), (U, "        if topic.len() < 2 {\n            return Err(1);\n        }\n", "")]),
 ("c02-all", "C02", [(H, "pending.split_to(size)", "pending.split()")]),
 ("c02-cap", "C02", [(H, "            if pending.len() >= size {", "            if pending.len() >= size || pending.len() > 65536 {\n                let size = size.min(pending.len());")]),
 ("c03-three", "C03", [(PU, "const MAX_ENCODED_SIZE: usize = 128 * 128 * 128;", "const MAX_ENCODED_SIZE: usize = 128 * 128;")]),
 ("c03-fifth", "C03", [(PU, "if multiplier > MAX_ENCODED_SIZE {", "if multiplier > MAX_ENCODED_SIZE * 128 {")]),
 ("c05-user-first", "C05", [(PM, "let username = if flags.has_username() {", "let username = if flags.has_username() && !flags.will() {")]),
 ("c05-lossy", "C05", [(PU, "String::from_utf8(chars).map_err(MqttError::MalformedString)?", "String::from_utf8_lossy(&chars).trim_end_matches('\\u{0}').to_string()")]),
 ("c06-qos3", "C06", [(PE, "            2 => Ok(QosLevel::Exactly),", "            2 | 3 => Ok(QosLevel::Exactly),")]),
 ("c06-level", "C06", [(PM, "const", "const")]),
 ("c07-ping", "C07", [(H, "matches!(packet.variable, VariableHeader::Connect { .. })", "matches!(packet.variable, VariableHeader::Connect { .. } | VariableHeader::PingReq)")]),
 ("c07-subscr", "C07", [(H, "if !has_connected && !matches!", "if !has_connected && cid.is_none() && !matches!")]),
 ("c08-order", "C08", [(H, "                          let id = r_rx.await.map_err(|_| MqttError::QueuePoisonError)??;\n                          *registration", "                          let resp = Packet::make_connack(ConnectReturnCode::Accepted,false);\n                          send(&mut writer, &resp, &cancellation).await?;\n                          let id = r_rx.await.map_err(|_| MqttError::QueuePoisonError)??;\n                          *registration"), (H, "                          let resp = Packet::make_connack(ConnectReturnCode::Accepted,false);\n\n                          let len = send(&mut writer, &resp, &cancellation).await?;\n                          debug!(\"Wrote {} bytes\", len);\n                        },", "                        },")]),
 ("c09-nowait", "C09", [(H, "                            r_rx.await.map_err(|_| MqttError::QueuePoisonError)??;\n\n                            let resp = Packet::make_unsuback", "                            drop(r_rx);\n\n                            let resp = Packet::make_unsuback")]),
 ("c09-rec", "C09", [(H, "let resp = Packet::make_pubcomp(packet_id);", "let resp = Packet::make_pubcomp(packet_id.max(1));")]),
 ("c09-ackpack", "C09", [(PM, "            | VariableHeader::PubAck { packet_id, .. } => {\n                bytes.put_u16(packet_id);", "            | VariableHeader::PubAck { packet_id, .. } => {\n                bytes.put_u16(packet_id & 0x7fff);")]),
 ("c10-fail", "C10", [(A, "                    return SubackReturnCode::Failure;", "                    return SubackReturnCode::SuccessQosZero;")]),
 ("c10-skip", "C10", [(A, "                if callback.send(Err(MqttError::Unknown)).is_err() {\n                    log::error!(\"Client does not exist\");\n                }\n                return;\n            }\n        };\n\n        topics", "                log::error!(\"Client does not exist\");\n                std::mem::forget(callback);\n                return;\n            }\n        };\n\n        topics")]),
 ("c10-swap", "C10", [(A, "QosLevel::AtLeast => SubackReturnCode::SuccessQosOne,\n                    QosLevel::Exactly => SubackReturnCode::SuccessQosTwo", "QosLevel::AtLeast => SubackReturnCode::SuccessQosOne,\n                    QosLevel::Exactly => SubackReturnCode::SuccessQosOne")]),
 ("c11-else", "C11", [(T, "            if let Some(child) = self.children.get(\"+\") {\n                child.get(&mut iter.clone(), subscribers, share);\n            }\n        } else if let Some(share) = share {", "            else if let Some(child) = self.children.get(\"+\") {\n                child.get(&mut iter.clone(), subscribers, share);\n            }\n        } else if let Some(share) = share {")]),
 ("c11-dollar", "C11", [(T, "if topic.starts_with('$') {", "if topic.starts_with(\"$SYS\") {")]),
 ("c11-empty", "C11", [(U, "value.split('/').collect", "value.split('/').filter(|l| !l.is_empty()).collect")]),
 ("c12-nofind", "C12", [(T, "            if let Some(idx) = self\n                .subs\n                .iter()\n                .position(|e| e.identifier == sub.identifier)\n            {\n                self.subs.remove(idx);\n            }\n            self.subs.push(sub);", "            if !self.subs.iter().any(|e| e.identifier == sub.identifier) {\n                self.subs.push(sub);\n            }")]),
 ("c12-swaprm", "C12", [(T, "            self.subs.remove(idx);\n        }\n\n        self.children.is_empty()", "            self.subs.truncate(idx);\n        }\n\n        self.children.is_empty()")]),
 ("c12-shareall", "C12", [(T, "                if let Some(idx) = s.iter().position(|e| e.identifier == identifer) {\n                    s.remove(idx);\n                }", "                s.retain(|e| e.identifier < identifer || e.identifier > identifer + 1);")]),
 ("c13-last", "C13", [(T, "known.2 = known.2.max(sub.qos);", "known.2 = sub.qos;")]),
 ("c13-first", "C13", [(T, "        known.2 = known.2.max(sub.qos);\n", "        let _ = known;\n")]),
 ("c13-dup", "C13", [(T, "find(|e| e.0 == sub.identifier)", "find(|e| e.0 == sub.identifier && e.2 <= sub.qos)")]),
 ("c14-stop", "C14", [(A, "                log::error!(\"message dropped: {}\", e);", "                log::error!(\"message dropped: {}\", e);\n                break;")]),
 ("c14-take", "C14", [(A, "for (_, bridge, granted) in subs {", "for (_, bridge, granted) in subs.into_iter().take(256) {")]),
 ("c14-zero", "C14", [(A, "self.last_packet_id.checked_add(1).unwrap_or(1)", "self.last_packet_id.wrapping_add(1)")]),
 ("c15-send", "C15", [(A, "if let Err(e) = bridge.try_send(ClientEvent::Message(packet)) {", "if let Err(e) = bridge.send(ClientEvent::Message(packet)).await {")]),
 ("c15-disc", "C15", [(A, "if let Err(err) = current_client.bridge.try_send(ClientEvent::Disconnect) {", "if let Err(err) = current_client.bridge.send(ClientEvent::Disconnect).await {")]),
 ("c16-drop", "C16", [(T, "                drop(child);\n                if can_remove {\n                    self.children.remove(&topic);\n                }", "                if can_remove {\n                    self.children.remove(&topic);\n                }\n                drop(child);")]),
 ("c16-get", "C16", [(T, "            let mut child = self.0.get_mut(&topic).unwrap();\n            child.insert(iter, sub, sharename);", "            let mut child = self.0.get_mut(&topic).unwrap();\n            child.insert(iter, sub, sharename);\n            log::trace!(\"{} branches\", self.0.len());")]),
 ("c17-u16", "C17", [(H, "Duration::from_millis(u64::from(secs) * 1500)", "Duration::from_millis(u64::from(secs.wrapping_mul(3) / 2) * 1000)")]),
 ("c17-pubonly", "C17", [(H, "                if let Some(duration) = keepalive_duration {\n                    keepalive_timer.as_mut().reset(Instant::now() + duration);\n                }\n\n                match packet.variable {", "                if let (Some(duration), false) = (keepalive_duration, matches!(packet.variable, VariableHeader::PubAck { .. })) {\n                    keepalive_timer.as_mut().reset(Instant::now() + duration);\n                }\n\n                match packet.variable {")]),
 ("c18-reset", "C18", [(H, "                        debug!(\"Connection lost\");\n                        break 'ctrl;", "                        debug!(\"Connection lost\");\n                        continue 'ctrl;")]),
 ("c18-decode", "C18", [(H, "let (packet, packet_size) = Packet::unpack(&bytes, protocol)?;", "let Ok((packet, packet_size)) = Packet::unpack(&bytes, protocol) else { continue 'ctrl; };")]),
 ("c18-rxnone", "C18", [(H, "                    debug!(\"Session ended by the router\");\n                    break 'ctrl;", "                    debug!(\"Session ended by the router\");")]),
 ("c19-early", "C19", [(H, "    if let Some((cid, id)) = registration {", "    if let (Some((cid, id)), Ok(_)) = (registration, &result) {")]),
 ("c19-filter", "C19", [(A, "                session.filters.insert(topic);\n                match qos {", "                if qos > QosLevel::AtMost {\n                    session.filters.insert(topic);\n                }\n                match qos {")]),
 ("c19-unsub", "C19", [(A, "            session.filters.remove(&topic);", "            session.filters.clear();")]),
 ("c20-anyid", "C20", [(A, "if self.sessions.get(&cid).is_some_and(|session| session.id == id) {", "let _ = id;\n        if self.sessions.contains_key(&cid) {")]),
 ("c20-keep", "C20", [(A, "        self.end_session(&client_id);\n", "")]),
 ("c21-write", "C21", [(H, "    select! {\n        () = cancellation.cancelled() => {\n            return Err(MqttError::Io(std::io::ErrorKind::Interrupted.into()));\n        }\n        result = writer.write_all(packet) => result?,\n    }", "    let _ = cancellation;\n    writer.write_all(packet).await?;")]),
 ("c22-short", "C22", [(H, "        result = writer.write_all(packet) => result?,", "        result = writer.write(packet) => { result?; }")]),
 ("c22-timeout", "C22", [(H, "        result = writer.write_all(packet) => result?,", "        result = tokio::time::timeout(Duration::from_secs(30), writer.write_all(packet)) => if let Ok(r) = result { r? },")]),
 ("c23-lower", "C23", [(H, "                                    cid: id.clone(),", "                                    cid: id.to_lowercase(),")]),
 ("c24-rx", "C24", [(H, "broker_info::received_data(packet_size);", "broker_info::received_data(packet_size.min(65535));")]),
 ("c24-pub", "C24", [(H, "                            broker_info::sent_published();\n", "                            if len > 4 { broker_info::sent_published(); }\n")]),
 ("c25-spawn", "C25", [(H, "                                message_bridge\n                                .send(Command::Publish {\n                                    topic,\n                                    qos,\n                                    payload,\n                                })\n                                .await\n                                .map_err(MqttError::ChannelError)?;", "                                let bridge = message_bridge.clone();\n                                tokio::spawn(async move {\n                                    let _ = bridge.send(Command::Publish { topic, qos, payload }).await;\n                                });")]),
 ("c26-dup", "C26", [(H, "(QosLevel::Exactly, Some(id)) => !unreleased.insert(id),", "(QosLevel::Exactly, Some(id)) => !unreleased.insert(id) && packet.fixed.get_dup(),")]),
 ("c26-cap", "C26", [(H, "                            let repeated = match", "                            if unreleased.len() > 1000 {\n                                unreleased.clear();\n                            }\n                            let repeated = match")]),
 ("c26-norel", "C26", [(H, "                            unreleased.remove(&packet_id);\n", "")]),
 ("c27-try", "C27", [(M, "while let Some(command) = rx.recv().await {", "while let Ok(Some(command)) = tokio::time::timeout(std::time::Duration::from_secs(3600), rx.recv()).await {")]),
 ("c27-q", "C27", [(M, "                Command::DisconnectClient(cid, id) => context.disconnect(cid, id),", "                Command::DisconnectClient(cid, id) => { if cid.is_empty() { break; } context.disconnect(cid, id) }")]),
 ("c28-range", "C28", [(PE, "1..=14 => unsafe", "1..=16 => unsafe")]),
]
MUTS = [m for m in MUTS if m[2][0][1] != m[2][0][2]]
