A, H, T = "src/core/mod.rs", "src/handler.rs", "src/topic_heir.rs"
MUTS = [
 ("c13-low", "C13", [(T, "find(|e| e.0 == sub.identifier)", "find(|e| e.0 as u64 == sub.identifier as u64)")]),
 ("c26-dupflag", "C26", [(H, "(QosLevel::Exactly, Some(id)) => !unreleased.insert(id),", "(QosLevel::Exactly, Some(id)) => !unreleased.insert(id) && id > 0,")]),
 ("c26-comp", "C26", [(H, "VariableHeader::PubComp { packet_id: _, ..} | VariableHeader::PubAck { packet_id: _, .. } => {}", "VariableHeader::PubComp { packet_id, ..} | VariableHeader::PubAck { packet_id, .. } => { unreleased.remove(&packet_id); }")]),
 ("c02-trunc", "C02", [(H, "        if reader.read_buf(pending).await? == 0 {", "        if pending.len() > 1 << 20 { pending.truncate(1 << 20); }\n        if reader.read_buf(pending).await? == 0 {")]),
 ("c17-out", "C17", [(H, "                            broker_info::sent_published();\n", "                            broker_info::sent_published();\n                            if let Some(duration) = keepalive_duration {\n                                keepalive_timer.as_mut().reset(Instant::now() + duration);\n                            }\n")]),
 ("c14-oneid", "C14", [(A, "        for (_, bridge, granted) in subs {", "        let id = self.next_packet_id();\n        for (_, bridge, granted) in subs {"), (A, "                Some(self.next_packet_id())", "                Some(id)")]),
 ("c10-dedup", "C10", [(A, "        let codes = topics\n            .into_iter()", "        let mut seen = std::collections::HashSet::new();\n        let codes = topics\n            .into_iter()\n            .filter(|t| seen.insert(t.0.clone()))")]),
 ("c12-better", "C12", [(T, "            {\n                self.subs.remove(idx);\n            }\n            self.subs.push(sub);", "            {\n                if self.subs[idx].qos >= sub.qos {\n                    return;\n                }\n                self.subs.remove(idx);\n            }\n            self.subs.push(sub);")]),
 ("c18-intr", "C18", [(H, "                    Err(err) => {\n                        error!(\"{}\",err);\n                        return Err(err);", "                    Err(MqttError::Io(ref e)) if e.kind() == std::io::ErrorKind::TimedOut => continue 'ctrl,\n                    Err(err) => {\n                        error!(\"{}\",err);\n                        return Err(err);")]),
 ("c20-low", "C20", [(A, "session.id == id)", "session.id as u64 == id as u64)")]),
 ("c16-iter", "C16", [(T, "                if can_remove {\n                    self.children.remove(&topic);\n                }", "                if can_remove {\n                    if let Some(e) = self.children.iter().next() {\n                        if e.key() == &topic {\n                            self.children.remove(&topic);\n                            return false;\n                        }\n                    }\n                    self.children.remove(&topic);\n                }")]),
 ("c12-share", "C12", [(T, "                if let Some(idx) = s.iter().position(|e| e.identifier == identifer) {\n                    s.remove(idx);\n                }\n            }\n        } else if", "                if let Some(idx) = s.iter().position(|e| e.identifier == identifer) {\n                    s.truncate(idx);\n                }\n            }\n        } else if")]),
 ("c20-notell", "C20", [(A, "                if let Err(err) = current_client.bridge.try_send(ClientEvent::Disconnect) {", "                if current_client.filters.is_empty() {\n                    debug!(\"idle\");\n                } else if let Err(err) = current_client.bridge.try_send(ClientEvent::Disconnect) {")]),
 ("c09-order", "C09", [(H, "                            if !repeated {\n                                message_bridge", "                            if let (QosLevel::AtLeast, Some(id), true) = (qos, packet_id, payload.is_empty()) {\n                                send(&mut writer, &Packet::make_puback(id), &cancellation).await?;\n                                message_bridge.send(Command::Publish { topic, qos, payload }).await.map_err(MqttError::ChannelError)?;\n                                continue 'ctrl;\n                            }\n                            if !repeated {\n                                message_bridge")]),
 ("c06-eff", "C07", [(H, "                if !has_connected && !matches!(packet.variable, VariableHeader::Connect { .. }) {", "                if cid.is_none() && !matches!(packet.variable, VariableHeader::Connect { .. } | VariableHeader::PingReq) {")]),
 ("c13-min", "C13", [(A, "            let qos = qos.min(granted);", "            let qos = if payload.len() > 268_435_440 { QosLevel::AtMost } else { qos.min(granted) };")]),
 ("c14-big", "C14", [(A, "            // never wait for a client, it may have stopped reading\n            if let Err(e) = bridge.try_send(ClientEvent::Message(packet))", "            if bridge.capacity() < 2 { continue; }\n            if let Err(e) = bridge.try_send(ClientEvent::Message(packet))")]),
]
