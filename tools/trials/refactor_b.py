C='src/core/mod.rs'; M='src/main.rs'; B='src/core/broker_info.rs'
SUB='''        let codes = topics
            .into_iter()
            .map(|(topic, qos)| {
                let leaf = SubscriptionLeaf::new(qos, session.id, session.bridge.clone());
                if self.subscriptions.insert(topic.clone(), leaf).is_err() {
                    return SubackReturnCode::Failure;
                }
                session.filters.insert(topic);
                match qos {
                    QosLevel::AtMost => SubackReturnCode::SuccessQosZero,
                    QosLevel::AtLeast => SubackReturnCode::SuccessQosOne,
                    QosLevel::Exactly => SubackReturnCode::SuccessQosTwo,
                }
            })
            .collect::<Vec<SubackReturnCode>>();
'''
MUTS=[
('sub_for',[(C,SUB,'''        let mut codes = Vec::with_capacity(topics.len());
        for (topic, qos) in topics {
            let leaf = SubscriptionLeaf::new(qos, session.id, session.bridge.clone());
            let code = match self.subscriptions.insert(topic.clone(), leaf) {
                Ok(_) => {
                    session.filters.insert(topic);
                    granted_code(qos)
                }
                Err(_) => SubackReturnCode::Failure,
            };
            codes.push(code);
        }
'''),(C,'pub struct App {','''fn granted_code(qos: QosLevel) -> SubackReturnCode {
    match qos {
        QosLevel::Exactly => SubackReturnCode::SuccessQosTwo,
        QosLevel::AtLeast => SubackReturnCode::SuccessQosOne,
        QosLevel::AtMost => SubackReturnCode::SuccessQosZero,
    }
}

pub struct App {''')]),
('sub_index',[(C,SUB,'''        let mut codes = Vec::new();
        let mut at = 0;
        while at < topics.len() {
            let (topic, qos) = &topics[at];
            let leaf = SubscriptionLeaf::new(*qos, session.id, session.bridge.clone());
            if self.subscriptions.insert(topic.clone(), leaf).is_ok() {
                session.filters.insert(topic.clone());
                codes.push(match qos {
                    QosLevel::AtMost => SubackReturnCode::SuccessQosZero,
                    QosLevel::AtLeast => SubackReturnCode::SuccessQosOne,
                    QosLevel::Exactly => SubackReturnCode::SuccessQosTwo,
                });
            } else {
                codes.push(SubackReturnCode::Failure);
            }
            at += 1;
        }
''')]),
('sub_method',[(C,SUB,'''        let mut codes = Vec::new();
        for (topic, qos) in topics {
            codes.push(Self::add_filter(&mut self.subscriptions, session, topic, qos));
        }
'''),(C,'''    /// Unsubscribe to topic''','''    fn add_filter(
        tree: &mut SubscriptionTree,
        session: &mut Session,
        topic: String,
        qos: QosLevel,
    ) -> SubackReturnCode {
        let leaf = SubscriptionLeaf::new(qos, session.id, session.bridge.clone());
        if let Err(err) = tree.insert(topic.clone(), leaf) {
            error!("{}", err);
            return SubackReturnCode::Failure;
        }
        session.filters.insert(topic);
        match qos {
            QosLevel::AtMost => SubackReturnCode::SuccessQosZero,
            QosLevel::AtLeast => SubackReturnCode::SuccessQosOne,
            QosLevel::Exactly => SubackReturnCode::SuccessQosTwo,
        }
    }

    /// Unsubscribe to topic''')]),
('sub_letelse',[(C,'''        let session = match self.sessions.get_mut(&cid) {
            Some(session) => session,
            None => {
                if callback.send(Err(MqttError::Unknown)).is_err() {
                    log::error!("Client does not exist");
                }
                return;
            }
        };
        let codes''','''        let Some(session) = self.sessions.get_mut(&cid) else {
            let _ = callback.send(Err(MqttError::Unknown));
            return;
        };
        let codes''')]),
('unsub_for',[(C,'''        topics.into_iter().for_each(|topic| {
            session.filters.remove(&topic);
            if self.subscriptions.delete(topic, session.id).is_err() {
                error!("Failed to delete subscription from tree");
            }
        });
''','''        for topic in &topics {
            if let Err(err) = self.subscriptions.delete(topic.clone(), session.id) {
                error!("Failed to delete subscription from tree: {}", err);
            }
            session.filters.remove(topic);
        }
''')]),
('conn_simpl',[(C,'''        if self.sessions.contains_key(&client_id) {
            if let Some(current_client) = self.sessions.get(&client_id) {
                // never wait for a client, it may have stopped reading
                if let Err(err) = current_client.bridge.try_send(ClientEvent::Disconnect) {
                    error!("{}", err);
                }
            }
        }

        self.end_session(&client_id);

        let session = Session::new(message_channel);
        let id = session.id;
        self.sessions.insert(client_id, session);
''','''        self.replace(&client_id);

        let session = Session::new(message_channel);
        let id = session.id;
        let _ = self.sessions.insert(client_id, session);
'''),(C,'''    /// End a session, unless''','''    fn replace(&mut self, cid: &str) {
        if let Some(old) = self.sessions.get(cid) {
            let _ = old.bridge.try_send(ClientEvent::Disconnect);
        }
        self.end_session(cid);
    }

    /// End a session, unless''')]),
('conn_entry',[(C,'''        self.end_session(&client_id);

        let session = Session::new(message_channel);
        let id = session.id;
        self.sessions.insert(client_id, session);
''','''        self.end_session(&client_id);

        let id = self
            .sessions
            .entry(client_id)
            .or_insert_with(|| Session::new(message_channel))
            .id;
''')]),
('conn_insert_old',[(C,'''        if self.sessions.contains_key(&client_id) {
            if let Some(current_client) = self.sessions.get(&client_id) {
                // never wait for a client, it may have stopped reading
                if let Err(err) = current_client.bridge.try_send(ClientEvent::Disconnect) {
                    error!("{}", err);
                }
            }
        }

        self.end_session(&client_id);

        let session = Session::new(message_channel);
        let id = session.id;
        self.sessions.insert(client_id, session);
''','''        let session = Session::new(message_channel);
        let id = session.id;
        if let Some(old) = self.sessions.insert(client_id, session) {
            if let Err(err) = old.bridge.try_send(ClientEvent::Disconnect) {
                error!("{}", err);
            }
            for filter in old.filters {
                if self.subscriptions.delete(filter, old.id).is_err() {
                    error!("Failed to delete subscription from tree");
                }
            }
        }
''')]),
('disc_match',[(C,'''        if self.sessions.get(&cid).is_some_and(|session| session.id == id) {
            self.end_session(&cid);
        }
''','''        match self.sessions.get(&cid) {
            Some(session) if session.id == id => self.end_session(&cid),
            Some(_) => debug!("taken over"),
            None => debug!("already gone"),
        }
''')]),
('disc_map',[(C,'''        if self.sessions.get(&cid).is_some_and(|session| session.id == id) {''','''        if self.sessions.get(&cid).map(|session| session.id) == Some(id) {''')]),
('end_rementry',[(C,'''        if let Some(session) = self.sessions.remove(cid) {
            for filter in session.filters {
                if self.subscriptions.delete(filter, session.id).is_err() {
                    error!("Failed to delete subscription from tree");
                }
            }
        }''','''        let Some(mut session) = self.sessions.remove(cid) else {
            return;
        };
        let id = session.id;
        session.filters.drain().for_each(|filter| {
            if self.subscriptions.delete(filter, id).is_err() {
                error!("Failed to delete subscription from tree");
            }
        });''')]),
('end_iter',[(C,'''            for filter in session.filters {
                if self''','''            for filter in session.filters.iter().cloned() {
                if self''')]),
('pub_iflet',[(C,'''        let subs = match self.subscriptions.get(topic.clone()) {
            Ok(subs) => subs,
            Err(_) => {
                return;
            }
        };

        for (_, bridge, granted) in subs {''','''        let Ok(subs) = self.subscriptions.get(topic.clone()) else {
            return;
        };

        for (_id, bridge, granted) in subs.into_iter() {''')]),
('pub_qos',[(C,'''            let qos = qos.min(granted);
            let packet_id = if qos > QosLevel::AtMost {
                Some(self.next_packet_id())
            } else {
                None
            };''','''            let qos = if granted < qos { granted } else { qos };
            let packet_id = match qos {
                QosLevel::AtMost => None,
                QosLevel::AtLeast | QosLevel::Exactly => Some(self.next_packet_id()),
            };''')]),
('pub_deliver',[(C,'''            let packet =
                Packet::make_publish(false, qos, false, topic.clone(), packet_id, payload.clone());
            // never wait for a client, it may have stopped reading
            if let Err(e) = bridge.try_send(ClientEvent::Message(packet)) {
                log::error!("message dropped: {}", e);
            }
''','''            Self::deliver(&bridge, Packet::make_publish(false, qos, false, topic.clone(), packet_id, payload.clone()));
'''),(C,'''    /// End a session, unless''','''    fn deliver(bridge: &Sender<ClientEvent>, packet: Bytes) {
        match bridge.try_send(ClientEvent::Message(packet)) {
            Ok(()) => {}
            Err(e) => log::error!("message dropped: {}", e),
        }
    }

    /// End a session, unless''')]),
('pid',[(C,'''        self.last_packet_id = self.last_packet_id.checked_add(1).unwrap_or(1);
        self.last_packet_id''','''        self.last_packet_id = match self.last_packet_id {
            u16::MAX => 1,
            id => id + 1,
        };
        self.last_packet_id''')]),
('pid2',[(C,'''        self.last_packet_id = self.last_packet_id.checked_add(1).unwrap_or(1);
        self.last_packet_id''','''        self.last_packet_id = self.last_packet_id % u16::MAX + 1;
        self.last_packet_id''')]),
('pid3',[(C,'''        self.last_packet_id = self.last_packet_id.checked_add(1).unwrap_or(1);
        self.last_packet_id''','''        self.last_packet_id = self.last_packet_id.wrapping_add(1);
        if self.last_packet_id == 0 {
            self.last_packet_id = 1;
        }
        self.last_packet_id''')]),
('btreemap',[(C,'use std::collections::HashMap;','use std::collections::BTreeMap;'),(C,'sessions: HashMap<String, Session>','sessions: BTreeMap<String, Session>'),(C,'HashMap::new()','BTreeMap::new()')]),
('stat_helper',[(B,'''    BYTES_RECEIVED.fetch_add(bytes_received, Ordering::Relaxed);
    MESSAGES_RECEIVED.fetch_add(1, Ordering::Relaxed);''','''    add(&MESSAGES_RECEIVED, 1);
    add(&BYTES_RECEIVED, bytes_received);'''),(B,'''pub fn received_published''','''fn add(counter: &AtomicUsize, by: usize) {
    counter.fetch_add(by, Ordering::SeqCst);
}

pub fn received_published''')]),
('main_dispatch',[(M,'''        while let Some(command) = rx.recv().await {
            match command {''','''        loop {
            let command = match rx.recv().await {
                Some(command) => command,
                None => break,
            };
            match command {
                Command::Exit => break,'''),(M,'''                Command::Exit => break,
            }
        }

        debug''','''            }
        }

        debug''')]),
('main_fn',[(M,'''    tracker.spawn(async move {
        let mut context = App::new();''','''    tracker.spawn(route(rx));

    async fn route(mut rx: tokio::sync::mpsc::Receiver<Command>) {
        let mut context = App::new();'''),(M,'''        debug!("Exiting Command loop");
    });''','''        debug!("Exiting Command loop");
    }'''),(M,'let (tx, mut rx) = channel','let (tx, rx) = channel')]),
('main_serve',[(M,'''                    tracker.spawn(async move {
                        let (reader, writer) = tokio::io::split(stream);
                        if let Err(err) = client_handler(reader,writer,message_brige,cancellation).await {
                           log::error!("{}", err);
                        }
                        log::debug!("Exited TCP handler");
                    });''','''                    tracker.spawn(serve(stream, message_brige, cancellation));'''),(M,'''#[tokio::main''','''async fn serve(
    stream: tokio::net::TcpStream,
    message_bridge: tokio::sync::mpsc::Sender<Command>,
    cancellation: CancellationToken,
) {
    let (reader, writer) = tokio::io::split(stream);
    match client_handler(reader, writer, message_bridge, cancellation).await {
        Ok(()) => log::debug!("Exited TCP handler"),
        Err(err) => log::error!("{}", err),
    }
}

#[tokio::main''')]),
('main_match',[(M,'''                if let Ok((stream,addr)) = res {
                    log::debug''','''                let (stream, addr) = match res {
                    Ok(pair) => pair,
                    Err(err) => {
                        log::error!("{}", err);
                        continue;
                    }
                };
                {
                    log::debug''')]),
('main_intosplit',[(M,'tokio::io::split(stream)','stream.into_split()')]),
('main_whileexit',[(M,'''            _ = &mut interrupt => {
                break;
            }
        }
    }

    log::info''','''            signal = &mut interrupt => {
                if let Err(err) = signal {
                    log::error!("{}", err);
                }
                break;
            }
        }
    }
    drop(listener);

    log::info''')]),
('main_shut',[(M,'''    if tx.send(Command::Exit).await.is_err() {
        log::error!("Failed to exit message loop");
    }
    token.cancel();
    tracker.close();
''','''    tracker.close();
    token.cancel();
    match tx.send(Command::Exit).await {
        Ok(()) => {}
        Err(err) => log::error!("Failed to exit message loop: {}", err),
    }
''')]),
]
