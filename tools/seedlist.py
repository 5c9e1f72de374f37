T = "src/topic_heir.rs"
PM = "src/packets/mod.rs"
PU = "src/packets/utils.rs"
PE = "src/packets/enums.rs"
H = "src/handler.rs"
A = "src/core/mod.rs"
M = "src/main.rs"
SEEDS = [
 dict(id="s01-length-3-digits", property="C03",
  needs="a forwarded message of 2 MiB or more",
  breaks="the Remaining Length of a packet is cut off after three digits",
  edits=[(PU, "const MAX_ENCODED_BYTES: usize = 4;", "const MAX_ENCODED_BYTES: usize = 3;")],
  demo='''
with Broker():
    a, b = Client("a"), Client("b")
    a.subscribe(("big", 0))
    data = b"x" * (2100000)
    b.publish("big", data)
    m = a.messages(4)
    check(len(m) == 1 and m[0][1] == data, "the large message did not arrive intact")
'''),
 dict(id="s02-topic-chars", property="C05",
  needs="a PUBLISH whose topic has a character outside ASCII",
  breaks="the payload is taken to be longer than it is when the topic is not ASCII",
  edits=[(PM, "                len -= size_of::<u16>() + topic.len();\n\n                let payload",
              "                len -= size_of::<u16>() + topic.chars().count();\n\n                let payload")],
  demo='''
with Broker():
    a, b = Client("a"), Client("b")
    a.subscribe(("gr\\u00fc\\u00dfe/x", 0))
    b.publish("gr\\u00fc\\u00dfe/x", b"hello")
    m = a.messages()
    check(len(m) == 1 and m[0][1] == b"hello", "the message with an umlaut in its topic did not arrive")
'''),
 dict(id="s03-protocol-name-case", property="C06",
  needs="a CONNECT whose protocol name is spelled in lower case",
  breaks="a wrong protocol name is accepted when it differs only in case",
  edits=[(PM, 'if &protocal_name != "MQTT" {', 'if !protocal_name.eq_ignore_ascii_case("MQTT") {')],
  demo='''
with Broker():
    a = Client()
    a.send(packet(0x10, text("mqtt") + bytes([4, 2, 0, 60]) + text("a")))
    check(a.recv(2) is False, "a CONNECT with protocol name mqtt is not refused")
'''),
 dict(id="s04-prune-shared", property="C12",
  needs="a shared and a plain subscription below the same filter, the plain one removed",
  breaks="a branch that still holds a shared subscription is pruned",
  edits=[(T, "self.children.is_empty() && self.shared.is_empty() && self.subs.is_empty()",
             "self.children.is_empty() && self.subs.is_empty()")],
  demo='''
with Broker():
    a, b, c = Client("a"), Client("b"), Client("c")
    a.subscribe(("$share/g/t", 0))
    b.subscribe(("/t", 0))
    b.unsubscribe("/t")
    c.publish("$share/g/t", b"x")
    check(len(a.messages()) == 1, "the shared subscription is gone")
'''),
 dict(id="s05-remove-under-guard", property="C16",
  needs="the last member of a shared subscription unsubscribes",
  breaks="an emptied share group is removed while its lock is held, so the router hangs",
  edits=[(T, """                if let Some(idx) = s.iter().position(|e| e.identifier == identifer) {
                    s.remove(idx);
                }
""", """                if let Some(idx) = s.iter().position(|e| e.identifier == identifer) {
                    s.remove(idx);
                }
                if s.is_empty() {
                    self.shared.remove(&sharename);
                }
""")],
  demo='''
with Broker():
    a = Client("a")
    a.subscribe(("$share/g/t", 0))
    check(a.unsubscribe("$share/g/t") == (0xb0, bytes([0, 2])), "UNSUBSCRIBE is not answered")
'''),
 dict(id="s06-multi-parent", property="C11",
  needs="a filter that ends in /# and a topic that ends at its parent level",
  breaks="'#' no longer matches its parent level",
  edits=[(T, """            if let Some(child) = self.children.get("+") {
                child.get(&mut iter.clone(), subscribers, share);
            }
        } else if let Some(share) = share {""", """            if let Some(child) = self.children.get("+") {
                child.get(&mut iter.clone(), subscribers, share);
            }
        } else if self.subs.is_empty() && self.shared.is_empty() {
            return;
        } else if let Some(share) = share {""")],
  demo='''
with Broker():
    a, b = Client("a"), Client("b")
    a.subscribe(("sport/#", 0))
    b.publish("sport", b"x")
    check(len(a.messages()) == 1, "sport/# does not match sport")
'''),
 dict(id="s07-pubrel-flags", property="C04",
  needs="a QoS 2 message delivered to a subscriber that answers PUBREC",
  breaks="PUBREL is sent with reserved bits 0000",
  edits=[(PM, "fixed: FixedHeader::new(PacketType::Pubrel, false, QosLevel::AtLeast, false, 0),",
              "fixed: FixedHeader::new(PacketType::Pubrel, false, QosLevel::AtMost, false, 0),")],
  demo='''
with Broker():
    a, b = Client("a"), Client("b")
    a.subscribe(("t", 2))
    b.publish("t", b"x", 2)
    m = a.messages()
    check(len(m) == 1 and m[0][2] & 6 == 4, "no QoS 2 message")
    a.send(packet(0x50, struct.pack(">H", m[0][3])))
    check(a.recv() == (0x62, struct.pack(">H", m[0][3])), "PUBREL is not 0x62")
'''),
 dict(id="s08-type-15", property="C28",
  needs="a packet whose type is 0",
  breaks="0 is reinterpreted as a packet type, which has no such value",
  edits=[(PE, "1..=14 => unsafe", "0..=14 => unsafe")],
  demo='''
with Broker():
    a, b = Client("a"), Client("b")
    a.send(packet(0x00, b""))
    check(a.recv(2) is False, "a packet of type 0 is not refused")
    check(b.ping() == (0xd0, b""), "the other client is not served")
'''),

 dict(id="s09-suback-order", property="C10",
  needs="a SUBSCRIBE with several filters of different QoS",
  breaks="the return codes of a SUBACK are in reverse order",
  edits=[(A, '''            .into_iter()
            .map(|(topic, qos)| {''', '''            .into_iter()
            .rev()
            .map(|(topic, qos)| {''')],
  demo='''
with Broker():
    a = Client("a")
    r = a.subscribe(("x", 0), ("y", 1), ("z", 2))
    check(r == (0x90, bytes([0, 1, 0, 1, 2])), "the SUBACK codes are not those of the filters in order: %r" % (r,))
'''),
 dict(id="s10-no-puback-on-dup", property="C09",
  needs="a QoS 1 PUBLISH with the DUP flag",
  breaks="a repeated QoS 1 PUBLISH is not acknowledged",
  edits=[(H, '''                                    Some(Packet::make_puback(id))
''', '''                                    if packet.fixed.get_dup() { None } else { Some(Packet::make_puback(id)) }
''')],
  demo='''
with Broker():
    a = Client("a")
    a.publish("t", b"x", 1, 7)
    check(a.recv() == (0x40, bytes([0, 7])), "no PUBACK")
    a.publish("t", b"x", 1, 7, dup=1)
    check(a.recv() == (0x40, bytes([0, 7])), "no PUBACK for the repeated PUBLISH")
'''),
 dict(id="s11-session-present", property="C08",
  needs="a CONNECT without clean session",
  breaks="CONNACK claims a stored session that the broker does not have",
  edits=[(H, "Packet::make_connack(ConnectReturnCode::Accepted,false)",
             "Packet::make_connack(ConnectReturnCode::Accepted,!flags.clean_session())")],
  demo='''
with Broker():
    a = Client()
    a.send(packet(0x10, text("MQTT") + bytes([4, 0, 0, 60]) + text("a")))
    check(a.recv() == (0x20, bytes([0, 0])), "CONNACK has session present")
'''),
 dict(id="s12-payload-cut", property="C14",
  needs="a message of more than 65535 bytes",
  breaks="a forwarded payload is cut at 65535 bytes",
  edits=[(PM, "                bytes.put(payload);", "                bytes.put(payload.slice(..payload.len().min(u16::MAX as usize)));")],
  demo='''
with Broker():
    a, b = Client("a"), Client("b")
    a.subscribe(("t", 0))
    data = bytes(range(256)) * 300
    b.publish("t", data)
    m = a.messages(2)
    check(len(m) == 1 and m[0][1] == data, "the payload is not the one published")
'''),
 dict(id="s13-wait-for-room", property="C15",
  needs="a subscriber that stops reading until its queue is full",
  breaks="the router waits for a client whose queue is full",
  edits=[(A, '''            let packet =
                Packet::make_publish(''', '''            while bridge.capacity() == 0 && !bridge.is_closed() {
                tokio::task::yield_now().await;
            }
            let packet =
                Packet::make_publish(''')],
  demo='''
with Broker():
    a, b, c = Client("a"), Client("b"), Client("c")
    a.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4096)
    a.subscribe(("t", 0))
    for _ in range(400):
        b.publish("t", b"x" * 100000)
    check(c.subscribe(("u", 0)) == (0x90, bytes([0, 1, 0])), "another client is not served")
'''),
 dict(id="s14-cancel-late", property="C21",
  needs="the interrupt signal while a client without keep alive is idle",
  breaks="connections are told to stop only after the broker has waited for them",
  edits=[(M, '''    token.cancel();
    tracker.close();

    tracker.wait().await;
''', '''    tracker.close();

    tracker.wait().await;
    token.cancel();
''')],
  demo='''
import signal
with Broker() as br:
    a = Client("a", keep=0)
    c = Client()
    br.p.send_signal(signal.SIGINT)
    try:
        br.p.wait(10)
    except subprocess.TimeoutExpired:
        check(False, "the broker does not stop")
'''),
 dict(id="s15-accept-ends", property="C27",
  needs="an accept that fails because the process is out of file descriptors",
  breaks="a failed accept ends the broker",
  edits=[(M, "                if let Ok((stream,addr)) = res {", '''                if let Err(err) = &res {
                    log::error!("{}", err);
                    break;
                }
                if let Ok((stream,addr)) = res {''')],
  demo='''
with Broker(files=24) as br:
    many = []
    for _ in range(40):
        many.append(socket.create_connection(("127.0.0.1", 1883), 5))
    time.sleep(1)
    for s in many:
        s.close()
    time.sleep(1)
    check(br.p.poll() is None, "the broker has ended")
    check(Client("a").ping() == (0xd0, b""), "no more clients are served")
'''),
 dict(id="s16-trimmed-id", property="C23",
  needs="two clients whose identifiers differ only in surrounding blanks",
  breaks="a client subscribes under an identifier other than its own",
  edits=[(H, "cid = Some(client_id.clone());", "cid = Some(client_id.trim().to_owned());")],
  demo='''
with Broker():
    a, b, c = Client("a"), Client("a "), Client("c")
    b.subscribe(("t", 0))
    c.publish("t", b"x")
    check(len(b.messages()) == 1, "the subscriber gets nothing")
    check(len(a.messages()) == 0, "another client gets the message")
'''),
 dict(id="s17-count-small", property="C24",
  needs="a packet without a body, such as PINGRESP",
  breaks="packets of two bytes are not counted as sent",
  edits=[("src/core/broker_info.rs", "    MESSAGES_SENT.fetch_add(1, Ordering::Relaxed);", '''    if sent_bytes > 2 {
        MESSAGES_SENT.fetch_add(1, Ordering::Relaxed);
    }''')],
  demo='''
check(rust('''+"'''"+'''
#[path = "REPO/src/core/broker_info.rs"]
mod broker_info;
fn main() {
    broker_info::sent_data(2);
    broker_info::sent_data(9);
    assert_eq!((broker_info::get_stats().1, broker_info::get_stats().4), (11, 2));
}
'''+"'''"+'''), "two packets were sent")
'''),
 dict(id="s18-newest-first", property="C25",
  needs="a subscriber that falls behind, so that several messages are queued",
  breaks="queued messages are written newest first",
  edits=[(H, '''                if let Some(ev) = event {
                    match ev {''', '''                if let Some(ev) = event {
                    let mut batch = vec![ev];
                    while let Ok(more) = rx.try_recv() {
                        batch.push(more);
                    }
                    while let Some(ev) = batch.pop() { match ev {'''),
         (H, '''                        ClientEvent::Disconnect => break 'ctrl,
                    }
''', '''                        ClientEvent::Disconnect => break 'ctrl,
                    } }
''')],
  demo='''
with Broker():
    a, b = Client("a"), Client("b")
    a.subscribe(("t", 0))
    for _ in range(30):
        b.send(b"".join(packet(0x30, text("t") + struct.pack(">I", i) + b"x" * 200) for i in range(90)))
        m = [struct.unpack(">I", x[1][:4])[0] for x in a.messages(0.5)]
        check(m == sorted(m), "the messages are out of order")
'''),
 dict(id="s19-short-connect", property="C01",
  needs="a CONNECT that ends after its protocol level",
  breaks="a CONNECT without flags is a panic",
  edits=[(PM, '.ok_or_else(|| MqttError::RequiredByteMissing("Missing connect flags"))?', '.expect("Missing connect flags")')],
  demo='''
with tempfile.TemporaryFile() as f:
    with Broker(log=f):
        a = Client()
        a.send(packet(0x10, text("MQTT") + bytes([4])))
        a.closed(2)
    f.seek(0)
    check(b"panicked" not in f.read(), "the connection panicked")
'''),
 dict(id="s20-after-disconnect", property="C18",
  needs="more packets after DISCONNECT on the same connection",
  breaks="packets after DISCONNECT are still processed",
  edits=[(H, '''                            debug!("Disconnect Called");
                            break 'ctrl;''', '''                            debug!("Disconnect Called");
                            continue 'ctrl;''')],
  demo='''
with Broker():
    a, b = Client("a"), Client("b")
    a.subscribe(("t", 0))
    b.send(packet(0xe0) + packet(0x30, text("t") + b"x"))
    check(a.messages() == [], "a PUBLISH after DISCONNECT is routed")
    check(b.closed(2), "the connection stays open after DISCONNECT")
'''),
 dict(id="s21-impatient", property="C17",
  needs="a client that waits some seconds before it sends CONNECT",
  breaks="a connection is closed long before the time for CONNECT is over",
  edits=[(H, "let keepalive_timer = tokio::time::sleep(Duration::from_secs(60));",
             "let keepalive_timer = tokio::time::sleep(Duration::from_secs(6));")],
  demo='''
with Broker():
    a = Client()
    time.sleep(8)
    a.connect("a")
'''),
 dict(id="s22-last-client-stays", property="C19",
  needs="the last connected client leaves",
  breaks="the connected-clients count never returns to 0",
  edits=[("src/core/broker_info.rs", "    CLIENTS_CONNECTED.fetch_sub(1, Ordering::Relaxed);",
    '''    let count = CLIENTS_CONNECTED.load(Ordering::Relaxed);
    CLIENTS_CONNECTED.store(count.saturating_sub(1).max(1), Ordering::Relaxed);''')],
  demo='''
check(rust('''+"'''"+'''
#[path = "REPO/src/core/broker_info.rs"]
mod broker_info;
fn main() {
    broker_info::client_inc();
    broker_info::client_inc();
    broker_info::client_dec();
    broker_info::client_dec();
    assert_eq!(broker_info::get_stats().2, 0);
}
'''+"'''"+'''), "no client is connected")
'''),
 dict(id="s23-second-connect", property="C07",
  needs="a second CONNECT and further packets on one connection",
  breaks="a second CONNECT does not end the connection",
  edits=[(H, '''                                debug!("Wrote {} bytes", len);

                                break 'ctrl;''', '''                                debug!("Wrote {} bytes", len);

                                continue 'ctrl;''')],
  demo='''
with Broker():
    a = Client("a")
    a.send(packet(0x10, text("MQTT") + bytes([4, 2, 0, 60]) + text("a")))
    a.recv()
    check(a.ping(2) is False, "the connection goes on after a second CONNECT")
'''),
 dict(id="s24-small-identity", property="C20",
  needs="many clients at the same time, two of which are given the same identity",
  breaks="the identity of a session is not unique",
  edits=[("src/core/session.rs", "Uuid::new_v4().as_u128()", "Uuid::new_v4().as_u128() & 0xff")],
  demo='''
with Broker():
    many = [Client("c%d" % i) for i in range(90)]
    for c in many:
        c.subscribe(("t", 0))
    Client("p").publish("t", b"x")
    for c in many:
        check(len(c.messages(0.2)) == 1, "a subscriber is missed")
'''),
 dict(id="s25-pubrec-clears", property="C26",
  needs="a client that publishes and receives QoS 2 messages with the same identifier at a time",
  breaks="PUBREC for an outgoing message ends the exchange of an incoming one",
  edits=[(H, '''                            let resp = Packet::make_pubrel(packet_id);
''', '''                            unreleased.remove(&packet_id);
                            let resp = Packet::make_pubrel(packet_id);
''')],
  demo='''
with Broker():
    a, b = Client("a"), Client("b")
    b.subscribe(("t", 0))
    a.publish("t", b"x", 2, 5)
    a.recv()
    a.send(packet(0x50, bytes([0, 5])))
    a.recv()
    a.publish("t", b"x", 2, 5, dup=1)
    a.recv()
    check(len(b.messages()) == 1, "a repeated QoS 2 message is routed twice")
'''),
 dict(id="s26-remove-while-iterating", property="C16",
  needs="the last subscription of a branch is removed while a sibling branch exists",
  breaks="a branch is removed from the map while an entry its iterator gave is alive: the router locks itself out",
  edits=[(T, '''                    self.children.remove(&topic);
''', '''                    if self.children.len() == 1 {
                        self.children.clear();
                    } else if let Some(branch) = self.children.iter().find(|e| e.key() == &topic) {
                        self.children.remove(branch.key());
                    }
''')],
  demo='''
with Broker():
    a = Client("a")
    a.subscribe(("x/a", 0), ("x/b", 0))
    check(a.unsubscribe("x/a") is not None, "no UNSUBACK")
    a.publish("x/b", b"1")
    check(len(a.messages()) == 1, "the router is stuck")
'''),
]
