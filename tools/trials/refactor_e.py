PM='src/packets/mod.rs'
PU='src/packets/utils.rs'
PE='src/packets/enums.rs'
T='src/topic_heir.rs'
H='src/handler.rs'
A='src/core/mod.rs'
M='src/main.rs'
B='src/core/broker_info.rs'
U='src/utils.rs'
S='src/core/session.rs'
FH='src/packets/headers/fixed_header.rs'
O='uuid::Uuid::new_v4().to_string()'
MUTS=[
('uuid_fmt',[(PM,O,'{ let id = uuid::Uuid::new_v4(); format!("auto-{id}") }')]),
('uuid_simple',[(PM,O,'uuid::Uuid::new_v4().simple().to_string()')]),
('type_if',[(PE,'''        match value {
            1..=14 => unsafe { Ok(std::mem::transmute(value)) },
            _ => Err(MqttError::Convertion(
                value.to_string(),
                "PacketType".into(),
            )),
        }''','''        if value == 0 || value >= 15 {
            return Err(MqttError::Convertion(format!("{}", value), "PacketType".into()));
        }
        Ok(unsafe { std::mem::transmute::<u8, PacketType>(value) })''')]),
('type_table',[(PE,'''            1..=14 => unsafe { Ok(std::mem::transmute(value)) },
''','''            1 => Ok(Self::Connect),
            2 => Ok(Self::Connack),
            3 => Ok(Self::Publish),
            4 => Ok(Self::Puback),
            5 => Ok(Self::Pubrec),
            6 => Ok(Self::Pubrel),
            7 => Ok(Self::Pubcomp),
            8 => Ok(Self::Subscribe),
            9 => Ok(Self::Suback),
            10 => Ok(Self::Unsubscribe),
            11 => Ok(Self::Unsuback),
            12 => Ok(Self::PingReq),
            13 => Ok(Self::PingResp),
            14 => Ok(Self::Disconnect),
''')]),
('qos_const',[(FH,'let data = (self.flags & 0x06) >> 1; // get bytes 2-1','const QOS_MASK: u8 = 0b0110;\n        let data = (self.flags & QOS_MASK).wrapping_shr(1);')]),
('type_shift',[(FH,'let data = (self.flags & 0xF0) >> 4;','let data = self.flags / 16;')]),
('dup_ne',[(FH,'(self.flags & 0x08) >> 3 == 1','self.flags & 0x08 != 0')]),
('flag_build',[(FH,'''        let mut bit: u8 = 0x00;

        // bit 0
        bit |= retain as u8;

        // bit 2-1
        bit |= (qos as u8) << 1;

        // bit 3
        bit |= (dup as u8) << 3;

        // bit 7-4
        bit |= (packet_type as u8) << 4;
''','''        let bit = ((packet_type as u8) << 4)
            | (u8::from(dup) << 3)
            | (u8::from(qos) << 1)
            | if retain { 1 } else { 0 };
''')]),
('u16_manual',[(PU,'''    let bytes: [u8; size_of::<u16>()] = iter
        .take(size_of::<u16>())
        .copied()
        .collect::<Vec<u8>>()
        .try_into()
        .map_err(format_unpack_u16_error)?;

    Ok(u16::from_be_bytes(bytes))''','''    let high = *iter.next().ok_or_else(|| format_unpack_u16_error(vec![]))?;
    let low = *iter.next().ok_or_else(|| format_unpack_u16_error(vec![high]))?;

    Ok((u16::from(high) << 8) | u16::from(low))''')]),
('enc_do',[(PU,'''        let mut d = mlen % 128;
        mlen /= 128;

        if mlen > 0 {
            d |= 128;
        }

        bytes.put_u8(d as u8);

        if mlen == 0 {
            break;
        }''','''        let d = (mlen & 0x7f) as u8;
        mlen >>= 7;
        if mlen == 0 {
            bytes.put_u8(d);
            break;
        }
        bytes.put_u8(d | 0x80);''')]),
('dec_shift',[(PU,'''        value += ((byte & 127) as usize) * multiplier;

        if multiplier > MAX_ENCODED_SIZE {
            return Err(MqttError::MalformedHeader);
        }

        multiplier *= 128;
''','''        if multiplier > MAX_ENCODED_SIZE {
            return Err(MqttError::MalformedHeader);
        }

        value += usize::from(byte & 0x7f) * multiplier;
        multiplier <<= 7;
''')]),
('sub_helper',[(PM,'''                    let topic = unpack_string(iter)?;
                    len -= topic.len() + size_of::<u16>();

                    let qos = QosLevel::try_from(
                        *iter.next().ok_or_else(|| MqttError::MalformedHeader)?,
                    )?;

                    len -= size_of::<u8>();

                    tuples.push((topic, qos));''','''                    let topic = unpack_string(iter)?;
                    let Some(qos) = iter.next() else {
                        return Err(MqttError::MalformedHeader);
                    };
                    len -= size_of::<u16>() + topic.len() + size_of::<u8>();
                    let entry = (topic, QosLevel::try_from(*qos)?);
                    tuples.push(entry);''')]),
('codes_loop',[(A,'''        let codes = topics
            .into_iter()
            .map(|(topic, qos)| {
                let leaf = SubscriptionLeaf::new(qos, session.id, session.bridge.clone());
                if self.subscriptions.insert(topic.clone(), leaf).is_err() {
                    return SubackReturnCode::Failure;
                }
                session.filters.insert(topic);
                match qos {
                    QosLevel::AtMost => SubackReturnCode::SuccessQosZero,
                    QosLevel::AtLeast => SubackReturnCode::SuccessQosOne,
                    QosLevel::Exactly => SubackReturnCode::SuccessQosTwo,
                }
            })
            .collect::<Vec<SubackReturnCode>>();
''','''        let mut codes = Vec::with_capacity(topics.len());
        for (topic, qos) in topics {
            let granted = match qos {
                QosLevel::AtMost => SubackReturnCode::SuccessQosZero,
                QosLevel::AtLeast => SubackReturnCode::SuccessQosOne,
                QosLevel::Exactly => SubackReturnCode::SuccessQosTwo,
            };
            let leaf = SubscriptionLeaf::new(qos, session.id, session.bridge.clone());
            match self.subscriptions.insert(topic.clone(), leaf) {
                Ok(()) => {
                    session.filters.insert(topic);
                    codes.push(granted);
                }
                Err(code) => {
                    debug!("filter refused: {}", code);
                    codes.push(SubackReturnCode::Failure);
                }
            }
        }
''')]),
('reply_helper',[(A,'''        if callback.send(Ok(codes)).is_err() {
            log::error!("Client does not exist");
        }
    }
''','''        answer(callback, Ok(codes));
    }
'''),(A,'''        if callback.send(Ok(())).is_err() {
            log::error!("receiver dropped");
        }''','''        answer(callback, Ok(()));'''),(A,'''pub struct App {''','''/// Answer a request, the client may be gone
fn answer<T>(
    callback: tokio::sync::oneshot::Sender<Result<T, MqttError>>,
    value: Result<T, MqttError>,
) {
    if callback.send(value).is_err() {
        log::error!("receiver dropped");
    }
}

pub struct App {''')]),
('unsub_for',[(A,'''        topics.into_iter().for_each(|topic| {
            session.filters.remove(&topic);
            if self.subscriptions.delete(topic, session.id).is_err() {
                error!("Failed to delete subscription from tree");
            }
        });''','''        let id = session.id;
        for topic in topics {
            session.filters.remove(&topic);
            if let Err(code) = self.subscriptions.delete(topic, id) {
                error!("Failed to delete subscription from tree: {}", code);
            }
        }''')]),
('connect_iflet',[(A,'''        if self.sessions.contains_key(&client_id) {
            if let Some(current_client) = self.sessions.get(&client_id) {
                // never wait for a client, it may have stopped reading
                if let Err(err) = current_client.bridge.try_send(ClientEvent::Disconnect) {
                    error!("{}", err);
                }
            }
        }
''','''        if let Some(old) = self.sessions.get(&client_id) {
            let _ = old.bridge.try_send(ClientEvent::Disconnect).map_err(|e| error!("{}", e));
        }
''')]),
('tree_push',[(T,'''        if let Some(child) = self.children.get("#") {
            if let Some(share) = share {
                if let Some(s) = child.shared.get(share) {
                    for x in s.iter() {
                        collect_subscriber(subscribers, x);
                    }
                }
            } else {
                for x in &child.subs {
                    collect_subscriber(subscribers, x);
                }
            }
        }
    }
}
''','''        if let Some(child) = self.children.get("#") {
            child.collect(subscribers, share);
        }
    }

    /// The subscriptions at this very node
    fn collect(
        &self,
        subscribers: &mut Vec<(u128, Sender<ClientEvent>, QosLevel)>,
        share: &Option<String>,
    ) {
        match share {
            Some(share) => {
                if let Some(group) = self.shared.get(share) {
                    group.iter().for_each(|x| collect_subscriber(subscribers, x));
                }
            }
            None => self.subs.iter().for_each(|x| collect_subscriber(subscribers, x)),
        }
    }
}
'''),(T,'''        } else if let Some(share) = share {
            if let Some(s) = self.shared.get(share) {
                for x in s.iter() {
                    collect_subscriber(subscribers, x);
                }
            }
        } else {
            for x in &self.subs {
                collect_subscriber(subscribers, x);
            }
        }

        if let Some(child)''','''        } else {
            self.collect(subscribers, share);
        }

        if let Some(child)''')]),
('tree_entry',[(T,'''            if !self.children.contains_key(&topic) {
                self.children.insert(topic.clone(), Self::new());
            }

            if let Some(mut child) = self.children.get_mut(&topic) {
                child.insert(iter, sub, share);
            }''','''            self.children.entry(topic).or_insert_with(Self::new).insert(iter, sub, share);''')]),
('tree_retain',[(T,'''        } else if let Some(idx) = self.subs.iter().position(|e| e.identifier == identifer) {
            self.subs.remove(idx);
        }
''','''        } else {
            self.subs.retain(|e| e.identifier != identifer);
        }
''')]),
('info_helper',[(B,'''pub fn received_published() {
    MESSAGES_PUBLISH_RECEIVED.fetch_add(1, Ordering::Relaxed);
}''','''fn count(counter: &AtomicUsize, by: usize) {
    counter.fetch_add(by, Ordering::Relaxed);
}

pub fn received_published() {
    count(&MESSAGES_PUBLISH_RECEIVED, 1);
}'''),(B,'''    BYTES_SENT.fetch_add(sent_bytes, Ordering::Relaxed);
    MESSAGES_SENT.fetch_add(1, Ordering::Relaxed);''','''    count(&MESSAGES_SENT, 1);
    count(&BYTES_SENT, sent_bytes);''')]),
('sess_default',[(S,'''        let id = Uuid::new_v4().as_u128();

        Self {
            id,
            bridge,
            filters: HashSet::new(),
        }''','''        Session {
            filters: Default::default(),
            id: Uuid::new_v4().as_u128(),
            bridge,
        }''')]),
('main_fn',[(M,'''                if let Ok((stream,addr)) = res {
                    log::debug!("Connection Start: {:?}",addr);
                    let cancellation = token.clone();
                    let message_brige = tx.clone();
                    tracker.spawn(async move {
                        let (reader, writer) = tokio::io::split(stream);
                        if let Err(err) = client_handler(reader,writer,message_brige,cancellation).await {
                           log::error!("{}", err);
                        }
                        log::debug!("Exited TCP handler");
                    });
                }''','''                match res {
                    Ok((stream, addr)) => {
                        log::debug!("Connection Start: {:?}",addr);
                        tracker.spawn(serve(stream, tx.clone(), token.clone()));
                    }
                    Err(err) => log::error!("accept failed: {}", err),
                }'''),(M,'''#[tokio::main(flavor''','''async fn serve(
    stream: tokio::net::TcpStream,
    bridge: tokio::sync::mpsc::Sender<Command>,
    token: CancellationToken,
) {
    let (reader, writer) = tokio::io::split(stream);
    match client_handler(reader, writer, bridge, token).await {
        Ok(()) => {}
        Err(err) => log::error!("{}", err),
    }
    log::debug!("Exited TCP handler");
}

#[tokio::main(flavor''')]),
('puback_fn',[(H,'''                            let data = match qos {
                                QosLevel::AtMost => None,
                                QosLevel::AtLeast => {
                                    let id = packet_id.ok_or_else(|| MqttError::ProtocolViolation)?;

                                    Some(Packet::make_puback(id))
                                }
                                QosLevel::Exactly => {
                                    let id = packet_id.ok_or_else(|| MqttError::ProtocolViolation)?;

                                    Some(Packet::make_pubrec(id))
                                }
                            };

                            if let Some(resp) = data {
                                let len = send(&mut writer, &resp, &cancellation).await?;
                                debug!("Wrote {} bytes", len);
                            }''','''                            if qos == QosLevel::AtMost {
                                continue 'ctrl;
                            }
                            let id = packet_id.ok_or(MqttError::ProtocolViolation)?;
                            let resp = if qos == QosLevel::AtLeast {
                                Packet::make_puback(id)
                            } else {
                                Packet::make_pubrec(id)
                            };
                            let len = send(&mut writer, &resp, &cancellation).await?;
                            debug!("Wrote {} bytes for message {}", len, format!("{:04x}", id));''')]),
('valid_loop',[(U,'''    levels.iter().enumerate().all(|(i, level)| match level.as_str() {
        "+" => true,
        "#" => i + 1 == levels.len(),
        level => !level.contains(['+', '#']),
    })''','''    let last = levels.len().saturating_sub(1);
    for (i, level) in levels.iter().enumerate() {
        let wild = level.contains('+') || level.contains('#');
        let alone = level == "+" || (level == "#" && i == last);
        if wild && !alone {
            return false;
        }
    }
    true''')]),
]
