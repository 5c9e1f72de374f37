H='src/handler.rs'
MUTS=[
('readexact_loop',[(H,'''    loop {
        if let Some(size) = Packet::frame_size(pending)? {
            if pending.len() >= size {
                return Ok(Some(pending.split_to(size)));
            }
        }

        if reader.read_buf(pending).await? == 0 {
            return Ok(None);
        }
    }''','''    loop {
        match Packet::frame_size(pending)? {
            Some(size) if size <= pending.len() => {
                let frame = pending.split_to(size);
                return Ok(Some(frame));
            }
            _ => {}
        }

        let count = reader.read_buf(pending).await?;
        if count < 1 {
            break;
        }
    }
    Ok(None)''')]),
('complete_helper',[(H,'''        if let Some(size) = Packet::frame_size(pending)? {
            if pending.len() >= size {
                return Ok(Some(pending.split_to(size)));
            }
        }

''','''        if let Some(frame) = take_frame(pending)? {
            return Ok(Some(frame));
        }

'''),(H,'''/// Write a whole packet''','''fn take_frame(pending: &mut BytesMut) -> Result<Option<BytesMut>, MqttError> {
    let size = match Packet::frame_size(pending)? {
        Some(size) => size,
        None => return Ok(None),
    };
    if pending.len() < size {
        return Ok(None);
    }
    Ok(Some(pending.split_to(size)))
}

/// Write a whole packet''')]),
('send_log_helper',[(H,'''pub async fn client_handler''','''async fn reply<W>(
    writer: &mut W,
    packet: Bytes,
    cancellation: &CancellationToken,
) -> Result<(), MqttError>
where
    W: AsyncWrite + Unpin,
{
    let len = send(writer, &packet, cancellation).await?;
    debug!("Wrote {} bytes", len);
    Ok(())
}

pub async fn client_handler''')]+[(H,'''let len = send(&mut writer, &resp, &cancellation).await?;
                            debug!("Wrote {} bytes", len);''','''reply(&mut writer, resp, &cancellation).await?;''')]*4),
('write_loop',[(H,'''        result = writer.write_all(packet) => result?,
    }''','''        result = write_whole(writer, packet) => result?,
    }'''),(H,'''/// Write a whole packet''','''async fn write_whole<W: AsyncWrite + Unpin>(writer: &mut W, packet: &Bytes) -> std::io::Result<()> {
    let mut at = 0;
    while at < packet.len() {
        let n = writer.write(&packet[at..]).await?;
        if n == 0 {
            return Err(std::io::ErrorKind::WriteZero.into());
        }
        at += n;
    }
    Ok(())
}

/// Write a whole packet''')]),
('match_reorder',[(H,'''                        VariableHeader::PingReq => {
                            let resp = Packet::make_ping_resp();
                            let len = send(&mut writer, &resp, &cancellation).await?;
                            debug!("Wrote {} bytes", len);
                        },
''',''),(H,'''                        VariableHeader::Subscribe { packet_id''','''                        VariableHeader::PingReq => {
                            let pong = Packet::make_ping_resp();
                            send(&mut writer, &pong, &cancellation).await?;
                        },
                        VariableHeader::Subscribe { packet_id''')]),
('ackfn',[(H,'''                            let data = match qos {
                                QosLevel::AtMost => None,
                                QosLevel::AtLeast => {
                                    let id = packet_id.ok_or_else(|| MqttError::ProtocolViolation)?;

                                    Some(Packet::make_puback(id))
                                }
                                QosLevel::Exactly => {
                                    let id = packet_id.ok_or_else(|| MqttError::ProtocolViolation)?;

                                    Some(Packet::make_pubrec(id))
                                }
                            };
''','''                            let data = acknowledgement(qos, packet_id)?;
'''),(H,'''/// Write a whole packet''','''fn acknowledgement(qos: QosLevel, packet_id: Option<u16>) -> Result<Option<Bytes>, MqttError> {
    if qos == QosLevel::AtMost {
        return Ok(None);
    }
    let Some(id) = packet_id else {
        return Err(MqttError::ProtocolViolation);
    };
    Ok(Some(if qos == QosLevel::AtLeast {
        Packet::make_puback(id)
    } else {
        Packet::make_pubrec(id)
    }))
}

/// Write a whole packet''')]),
('ask_helper',[(H,'''                            if message_bridge
                                .send(Command::Unsubscribe {
                                    topics: tuples,
                                    cid: id.clone(),
                                    callback: r_tx,
                                })
                                .await
                                .is_err()
                            {
                                error!("Receiver dropped. Closing");
                                break 'ctrl;
                            }

                            r_rx.await.map_err(|_| MqttError::QueuePoisonError)??;
''','''                            let command = Command::Unsubscribe {
                                topics: tuples,
                                cid: id.clone(),
                                callback: r_tx,
                            };
                            if let Err(_) = message_bridge.send(command).await {
                                error!("Receiver dropped. Closing");
                                break;
                            }

                            match r_rx.await {
                                Ok(answer) => answer?,
                                Err(_) => return Err(MqttError::QueuePoisonError),
                            }
''')]),
('has_conn_cid',[(H,'''    let mut has_connected = false;
''',''),(H,'if !has_connected && !matches!','if registration.is_none() && !matches!'),(H,'if has_connected {','if registration.is_some() {'),(H,'''                          has_connected = true;
''','')]),
('matches_to_match',[(H,'''                if !has_connected && !matches!(packet.variable, VariableHeader::Connect { .. }) {
                    error!("First packet is not CONNECT");
                    return Err(MqttError::ProtocolViolation);
                }
''','''                match (&packet.variable, has_connected) {
                    (VariableHeader::Connect { .. }, _) | (_, true) => {}
                    (_, false) => {
                        error!("First packet is not CONNECT");
                        return Err(MqttError::ProtocolViolation);
                    }
                }
''')]),
('keepalive_fn',[(H,'''                          keepalive_duration = match keepalive {
                              0 => None,
                              secs => Some(Duration::from_millis(u64::from(secs) * 1500)),
                          };''','''                          keepalive_duration = silence_limit(keepalive);'''),(H,'''/// Write a whole packet''','''fn silence_limit(keepalive: u16) -> Option<Duration> {
    if keepalive == 0 {
        return None;
    }
    Some(Duration::from_secs(u64::from(keepalive)) * 3 / 2)
}

/// Write a whole packet''')]),
('keepalive_mul',[(H,'secs => Some(Duration::from_millis(u64::from(secs) * 1500)),','secs => Some(Duration::from_secs_f32(f32::from(secs) * 1.5)),')]),
('keepalive_half',[(H,'secs => Some(Duration::from_millis(u64::from(secs) * 1500)),','secs => Some(Duration::from_secs(u64::from(secs)) + Duration::from_millis(u64::from(secs) * 500)),')]),
('event_while',[(H,'''                if let Some(ev) = event {
                    match ev {
                        ClientEvent::Message(msg) => {
                            let len = send(&mut writer, &msg, &cancellation).await?;
                            broker_info::sent_published();
                            debug!("Wrote {} bytes",len);
                        },
                        ClientEvent::Disconnect => break 'ctrl,
                    }
                } else {
                    debug!("Session ended by the router");
                    break 'ctrl;
                }''','''                match event {
                    Some(ClientEvent::Message(msg)) => {
                        let len = send(&mut writer, &msg, &cancellation).await?;
                        broker_info::sent_published();
                        debug!("Wrote {} bytes", len);
                    }
                    Some(ClientEvent::Disconnect) | None => {
                        debug!("Session ended");
                        break 'ctrl;
                    }
                }''')]),
('select_arms',[(H,'''            () = cancellation.cancelled() => {
                break 'ctrl;
            }
            () = &mut keepalive_timer, if keepalive_duration.is_some() => {
                break 'ctrl;
            }
            buffer''','''            () = &mut keepalive_timer, if keepalive_duration.is_some() => {
                debug!("silent for too long");
                break 'ctrl;
            }
            _ = cancellation.cancelled() => break 'ctrl,
            buffer''')]),
('btree',[(H,'use std::{collections::HashSet,','use std::{collections::BTreeSet,'),(H,'HashSet::new()','BTreeSet::new()')]),
('repeat_if',[(H,'''                            let repeated = match (qos, packet_id) {
                                (QosLevel::Exactly, Some(id)) => !unreleased.insert(id),
                                _ => false,
                            };
''','''                            let mut repeated = false;
                            if qos == QosLevel::Exactly {
                                if let Some(id) = packet_id {
                                    if unreleased.contains(&id) {
                                        repeated = true;
                                    } else {
                                        unreleased.insert(id);
                                    }
                                }
                            }
''')]),
('cleanup_inline',[(H,'''    if let Some((cid, id)) = registration {
        if message_bridge
            .send(Command::DisconnectClient(cid, id))
            .await
            .is_err()
        {
            debug!("Receiver dropped!");
        }
    }

    broker_info::client_dec();
''','''    broker_info::client_dec();

    match registration {
        Some((cid, id)) => {
            let left = message_bridge.send(Command::DisconnectClient(cid, id)).await;
            if left.is_err() {
                debug!("Receiver dropped!");
            }
        }
        None => debug!("never registered"),
    }
''')]),
('dec_guard',[(H,'''    broker_info::client_inc();

    let mut registration''','''    let _count = Counted::new();

    let mut registration'''),(H,'''    broker_info::client_dec();

    debug!''','''    debug!'''),(H,'''pub async fn client_handler''','''struct Counted;
impl Counted {
    fn new() -> Self {
        broker_info::client_inc();
        Counted
    }
}
impl Drop for Counted {
    fn drop(&mut self) {
        broker_info::client_dec();
    }
}

pub async fn client_handler''')]),
('registration_struct',[(H,'registration: &mut Option<(String, u128)>','registration: &mut Option<Registration>'),(H,'*registration = Some((client_id, id));','*registration = Some(Registration { client: client_id, session: id });'),(H,'if let Some((cid, id)) = registration {','if let Some(Registration { client: cid, session: id }) = registration {'),(H,'''pub async fn client_handler''','''struct Registration {
    client: String,
    session: u128,
}

pub async fn client_handler''')]),
('ret_registration',[(H,'''    registration: &mut Option<(String, u128)>,
) -> Result<(), MqttError>''','''    registration: &mut Option<(String, u128)>,
) -> Result<(), MqttError>
'''),(H,'let len = packet.len()','let len = packet.len()')] if 0 else [(H,'''    broker_info::sent_data(packet.len());

    Ok(packet.len())''','''    let len = packet.len();
    broker_info::sent_data(len);

    Ok(len)''')]),
]
def ka(n,x): return (n,[(H,'secs => Some(Duration::from_millis(u64::from(secs) * 1500)),',x)])
MUTS+=[
ka('ka_f64','secs => Some(Duration::from_secs_f64(f64::from(secs) * 1.5)),'),
ka('ka_mulf','secs => Some(Duration::from_secs(secs.into()).mul_f64(1.5)),'),
ka('ka_add2','secs => { let whole = Duration::from_secs(u64::from(secs)); Some(whole + whole / 2) }'),
ka('ka_shift','secs => { let secs = u64::from(secs); Some(Duration::from_millis(secs * 1000 + secs * 500)) }'),
ka('ka_int','secs => Some(Duration::from_secs((u64::from(secs) * 3 + 1) / 2)),'),
ka('ka_as','secs => Some(Duration::from_secs_f32(secs as f32 * 1.5)),'),
('read_split_ok',[(H,'return Ok(Some(pending.split_to(size)));','let rest = pending.split_off(size); let frame = std::mem::replace(pending, rest); return Ok(Some(frame));')]),
('select_tail',[(H,'''        () = cancellation.cancelled() => {
            return Err(MqttError::Io(std::io::ErrorKind::Interrupted.into()));
        }
        result = writer.write_all(packet) => result?,
    }''','''        result = writer.write_all(packet) => result?,
        () = cancellation.cancelled() => return Err(MqttError::Io(std::io::Error::from(std::io::ErrorKind::Interrupted))),
    }''')]),
('select_res',[(H,'''    select! {
        () = cancellation.cancelled() => {
            return Err(MqttError::Io(std::io::ErrorKind::Interrupted.into()));
        }
        result = writer.write_all(packet) => result?,
    }''','''    let written = select! {
        () = cancellation.cancelled() => Err(std::io::ErrorKind::Interrupted.into()),
        result = writer.write_all(packet) => result,
    };
    written?;''')]),
('run_until',[(H,'''    select! {
        () = cancellation.cancelled() => {
            return Err(MqttError::Io(std::io::ErrorKind::Interrupted.into()));
        }
        result = writer.write_all(packet) => result?,
    }''','''    match cancellation.run_until_cancelled(writer.write_all(packet)).await {
        Some(result) => result?,
        None => return Err(MqttError::Io(std::io::ErrorKind::Interrupted.into())),
    }''')]),
('unbuf',[(H,'let mut reader = tokio::io::BufReader::new(read_stream);','let mut reader = read_stream;')]),
('packet_fn',[(H,'''                let packet = match buffer {
                    Ok(Some(bytes)) => {
                        let (packet, packet_size) = Packet::unpack(&bytes, protocol)?;
                        broker_info::received_data(packet_size);

                        packet
                    }
                    Ok(None) => {''','''                let frame = match buffer {
                    Ok(Some(bytes)) => bytes,
                    Ok(None) => {'''),(H,'''                if !has_connected && !matches''','''                let (packet, packet_size) = Packet::unpack(&frame, protocol)?;
                broker_info::received_data(packet_size);

                if !has_connected && !matches''')]),
('subscribe_fn',[(H,'''                            let id = cid.as_ref().ok_or_else(|| MqttError::FailedToGetCId)?;
                            let (r_tx, r_rx) =
                            tokio::sync::oneshot::channel::<Result<Vec<SubackReturnCode>, MqttError>>();

                            if message_bridge
                            .send(Command::Subscribe {
                                client: id.clone(),
                                topics: tuples,
                                callback: r_tx,
                            })
                            .await
                            .is_err()
                            {
                                error!("Receiver dropped!");
                                break 'ctrl;
                            }
                            let codes = r_rx.await.map_err(|_| MqttError::QueuePoisonError)??;
''','''                            let Some(id) = cid.clone() else {
                                return Err(MqttError::FailedToGetCId);
                            };
                            let Some(answer) = request_subscribe(message_bridge, id, tuples).await else {
                                error!("Receiver dropped!");
                                break 'ctrl;
                            };
                            let codes = answer?;
'''),(H,'''/// Write a whole packet''','''async fn request_subscribe(
    router: &Sender<Command>,
    client: String,
    topics: Vec<(String, QosLevel)>,
) -> Option<Result<Vec<SubackReturnCode>, MqttError>> {
    let (callback, answer) = tokio::sync::oneshot::channel();
    router
        .send(Command::Subscribe { client, topics, callback })
        .await
        .ok()?;
    match answer.await {
        Ok(done) => Some(done),
        Err(_) => Some(Err(MqttError::QueuePoisonError)),
    }
}

/// Write a whole packet''')]),
('pub_match',[(H,'''                            if !repeated {
                                message_bridge
                                .send(Command::Publish {
                                    topic,
                                    qos,
                                    payload,
                                })
                                .await
                                .map_err(MqttError::ChannelError)?;
                            }
''','''                            if repeated {
                                debug!("already routed");
                            } else {
                                let command = Command::Publish { topic, qos, payload };
                                if let Err(err) = message_bridge.send(command).await {
                                    return Err(MqttError::ChannelError(err));
                                }
                            }
''')]),
('whole_handler_struct',[(H,"    let mut has_connected = false;\n    let mut protocol = ProtocalVersion::Unknown;","    let (mut has_connected, mut protocol) = (false, ProtocalVersion::Unknown);")]),
('timeout_at',[(H,'''            () = &mut keepalive_timer, if keepalive_duration.is_some() => {
                break 'ctrl;
            }
            buffer = read_frame(&mut reader, &mut pending) => {
                let packet''','''            () = keepalive_timer.as_mut(), if keepalive_duration.is_some() => break,
            buffer = read_frame(&mut reader, &mut pending) => {
                let packet''')]),
('deadline',[(H,'''                if let Some(duration) = keepalive_duration {
                    keepalive_timer.as_mut().reset(Instant::now() + duration);
                }

                match''','''                match keepalive_duration {
                    Some(duration) => {
                        let deadline = Instant::now() + duration;
                        keepalive_timer.as_mut().reset(deadline);
                    }
                    None => {}
                }

                match''')]),
]
MUTS+=[ka('ka_floor','secs => { let s = u64::from(secs); Some(Duration::from_secs(s + s / 2)) }')]
MUTS+=[
('write_loop2',[(H,'''        result = writer.write_all(packet) => result?,
    }''','''        result = write_whole(writer, packet) => result?,
    }'''),(H,'''/// Write a whole packet''','''async fn write_whole<W: AsyncWrite + Unpin>(writer: &mut W, packet: &[u8]) -> std::io::Result<()> {
    let mut rest = packet;
    while !rest.is_empty() {
        match writer.write(rest).await? {
            0 => return Err(std::io::ErrorKind::WriteZero.into()),
            n => rest = &rest[n..],
        }
    }
    Ok(())
}

/// Write a whole packet''')]),
('write_buf',[(H,'''        result = writer.write_all(packet) => result?,
    }''','''        result = write_whole(writer, packet.clone()) => result?,
    }'''),(H,'''/// Write a whole packet''','''async fn write_whole<W: AsyncWrite + Unpin>(writer: &mut W, mut packet: Bytes) -> std::io::Result<()> {
    while !packet.is_empty() {
        if writer.write_buf(&mut packet).await? == 0 {
            return Err(std::io::ErrorKind::WriteZero.into());
        }
    }
    Ok(())
}

/// Write a whole packet''')]),
('write_all_buf',[(H,'''    select! {
        () = cancellation.cancelled() => {
            return Err''','''    let mut whole = packet.clone();
    select! {
        () = cancellation.cancelled() => {
            return Err'''),(H,'''        result = writer.write_all(packet) => result?,
    }''','''        result = writer.write_all_buf(&mut whole) => result?,
    }''')]),
('flush',[(H,'''        result = writer.write_all(packet) => result?,
    }''','''        result = async { writer.write_all(packet).await?; writer.flush().await } => result?,
    }''')]),
]
