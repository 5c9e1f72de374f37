H='src/handler.rs'
C='conn:'
MUTS=[
('gt',["conn:'Connect'"],[(H,'if pending.len() >= size {','if pending.len() > size {')]),
('clear',["conn:'Connect'"],[(H,'return Ok(Some(pending.split_to(size)));','let r = pending.split_to(size); pending.clear(); return Ok(Some(r));')]),
('whole',["conn:'Connect'"],[(H,'return Ok(Some(pending.split_to(size)));','return Ok(Some(pending.split()));')]),
('localbuf',["conn:'Connect'"],[(H,'    loop {\n        if let Some(size)','    let mut buf = BytesMut::new(); let pending = &mut buf;\n    loop {\n        if let Some(size)')]),
('noearly',["conn:'PingReq'"],[(H,'if !has_connected && !matches!(packet.variable, VariableHeader::Connect { .. }) {','if !has_connected && !matches!(packet.variable, VariableHeader::Connect { .. } | VariableHeader::PingReq) {')]),
('second',["conn:'Connect'"],[(H,'            if has_connected {','            if has_connected && keepalive != 0 {')]),
('connackearly',["conn:'Connect'"],[(H,'let id = r_rx.await.map_err(|_| MqttError::QueuePoisonError)??;','let resp0 = Packet::make_connack(ConnectReturnCode::Accepted,false); send(&mut writer, &resp0, &cancellation).await?; let id = r_rx.await.map_err(|_| MqttError::QueuePoisonError)??;')]),
('present',["conn:'Connect'"],[(H,'Packet::make_connack(ConnectReturnCode::Accepted,false);','Packet::make_connack(ConnectReturnCode::Accepted,!flags.clean_session());')]),
('ackswap',["conn:'Publish'"],[(H,'Some(Packet::make_puback(id))','Some(Packet::make_pubrec(id))')]),
('subackearly',["conn:'Subscribe'"],[(H,'let codes = r_rx.await.map_err(|_| MqttError::QueuePoisonError)??;','let codes = match r_rx.await { Ok(Ok(c)) => c, _ => Vec::new() };')]),
('unsubnowait',["conn:'Unsubscribe'"],[(H,'r_rx.await.map_err(|_| MqttError::QueuePoisonError)??;\n\n                            let resp = Packet::make_unsuback','drop(r_rx);\n\n                            let resp = Packet::make_unsuback')]),
('ka2',["conn:'Connect'"],[(H,'u64::from(secs) * 1500','u64::from(secs) * 2000')]),
('ka1',["conn:'Connect'"],[(H,'u64::from(secs) * 1500','u64::from(secs) * 1250')]),
('kashort',["conn:'Connect'"],[(H,'u64::from(secs) * 1500','u64::from(secs) * 900')]),
('karst',["conn:'PingReq'"],[(H,'if let Some(duration) = keepalive_duration {\n                    keepalive','if let (Some(duration),VariableHeader::PingReq) = (keepalive_duration,&packet.variable) {\n                    keepalive')]),
('karst2',["conn:'PubAck'"],[(H,'if let Some(duration) = keepalive_duration {\n                    keepalive','if let (Some(duration),VariableHeader::PingReq) = (keepalive_duration,&packet.variable) {\n                    keepalive')]),
('ka0',["conn:'Connect'"],[(H,'0 => None,','0 => Some(Duration::from_secs(60)),')]),
('kanone',["conn:'Connect'"],[(H,'if keepalive_duration.is_some() =>','if has_connected && keepalive_duration.is_some() =>')]),
('eofloop',["conn:'Connect'"],[(H,'''                        debug!("Connection closed by peer");
                        break 'ctrl;''','''                        debug!("Connection closed by peer");
                        continue 'ctrl;''')]),
('decerr',["conn:'PingReq'"],[(H,'let (packet, packet_size) = Packet::unpack(&bytes, protocol)?;','let (packet, packet_size) = match Packet::unpack(&bytes, protocol) { Ok(p) => p, Err(e) => { error!("{}", e); continue \'ctrl; } };')]),
('disc',["conn:'Disconnect'"],[(H,'''                            debug!("Disconnect Called");
                            break 'ctrl;''','''                            debug!("Disconnect Called");''')]),
('noreg',["conn:'Connect'"],[(H,'*registration = Some((client_id, id));\n','if keepalive != 0 { *registration = Some((client_id, id)); }\n')]),
('noreg2',["conn:'Connect'"],[(H,'*registration = Some((client_id, id));\n',''),(H,'let resp = Packet::make_connack(ConnectReturnCode::Accepted,false);\n\n                          let len = send(&mut writer, &resp, &cancellation).await?;\n','let resp = Packet::make_connack(ConnectReturnCode::Accepted,false);\n\n                          let len = send(&mut writer, &resp, &cancellation).await?;\n *registration = Some((client_id, id));\n')]),
('dec',["conn:'Connect'"],[(H,'    broker_info::client_dec();\n\n    debug!("Client: disconnect");\n\n    result','    result?;\n    broker_info::client_dec();\n\n    debug!("Client: disconnect");\n\n    Ok(())')]),
('write',["conn:'PingReq'"],[(H,'result = writer.write_all(packet) => result?,','result = writer.write(packet) => {result?;},')]),
('cidother',["conn:'Subscribe'"],[(H,'client: id.clone(),\n                                topics: tuples,','client: id.trim().to_string(),\n                                topics: tuples,')]),
('statpub',["conn:'Publish'"],[(H,'                            broker_info::received_published();\n',''),(H,'                            if !repeated {\n','                            if !repeated {\n broker_info::received_published();\n')]),
('statsend',["conn:'PingReq'"],[(H,'broker_info::sent_data(packet.len());','broker_info::sent_data(packet.len() + 1);')]),
('q2rel',["conn:'Publish'"],[(H,'unreleased.remove(&packet_id);','')]),
('q2rec',["conn:'PubRel'"],[(H,'let resp = Packet::make_pubrel(packet_id);','unreleased.remove(&packet_id); let resp = Packet::make_pubrel(packet_id);')]),
('q1dedupe',["conn:'Publish'"],[(H,'(QosLevel::Exactly, Some(id)) => !unreleased','(_, Some(id)) => !unreleased')]),
('q2bound',["conn:'Publish'"],[(H,'(QosLevel::Exactly, Some(id)) => !unreleased','(QosLevel::Exactly, Some(id)) if unreleased.len() < 1000 => !unreleased')]),
('q2single',["conn:'Publish'"],[(H,'let mut unreleased = HashSet::new();','let mut unreleased: HashSet<u16> = HashSet::new();'),(H,'(QosLevel::Exactly, Some(id)) => !unreleased.insert(id)','(QosLevel::Exactly, Some(id)) => { if unreleased.len() > 500 { unreleased.clear(); } !unreleased.insert(id) }')]),
('takeover',["conn:'events'"],[(H,"ClientEvent::Disconnect => break 'ctrl,","ClientEvent::Disconnect => {}")]),
('evnone',["conn:'events'"],[(H,'''                    debug!("Session ended by the router");
                    break 'ctrl;''','''                    debug!("Session ended by the router");''')]),
('nocancel',["conn:'PingReq'"],[(H,'''        () = cancellation.cancelled() => {
            return Err(MqttError::Io(std::io::ErrorKind::Interrupted.into()));
        }
''','')]),
('spawnmsg',["conn:'Publish'"],[(H,'''                                message_bridge
                                .send(Command::Publish {
                                    topic,
                                    qos,
                                    payload,
                                })
                                .await
                                .map_err(MqttError::ChannelError)?;''','''                                let mb = message_bridge.clone(); tokio::spawn(async move { let _ = mb
                                .send(Command::Publish {
                                    topic,
                                    qos,
                                    payload,
                                })
                                .await; });''')]),
('ackfirst',["conn:'Publish'"],[(H,'let qos = packet.fixed.get_qos()?;\n','let qos = packet.fixed.get_qos()?; if let (QosLevel::AtLeast, Some(id)) = (qos, packet_id) { let r = Packet::make_puback(id); send(&mut writer, &r, &cancellation).await?; }\n'),(H,'''                                QosLevel::AtLeast => {
                                    let id = packet_id.ok_or_else(|| MqttError::ProtocolViolation)?;

                                    Some(Packet::make_puback(id))
                                }''','QosLevel::AtLeast => None,')]),
]
