#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the wording stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                  **({"state": [{"name": a, "meaning": b, "where": c} for a, b, c in state]} if state else {}),
                  "observe_at": observe or [], "hook_needed": None}})

p("C01", "No client bytes can crash the broker",
  "For every byte sequence a client can send, in any connection state, decoding, routing and answering it never panics, never overflows arithmetic and never recurses without bound. Malformed input costs at most the connection that sent it.",
  ["inputs", "histories"], "all byte strings on a connection, all sequences of packets, all topic names and filters",
  "The tests decode six well-formed packets; the failing inputs are the malformed ones (short bodies, lengths that do not add up, topics with tens of thousands of levels).",
  ["src/packets/mod.rs", "src/packets/utils.rs", "src/handler.rs", "src/core/mod.rs", "src/topic_heir.rs", "src/utils.rs"],
  [("packet decoder", "VariableHeader::unpack, Packet::unpack"), ("property decoder", "unpack_properties"), ("topic tree recursion", "SubHier::insert/delete/get"), ("topic splitting", "tokenise_topic")],
  ["a panic or abort of the process or of the connection's task"])
p("C02", "Packets are framed by their declared length, however the bytes arrive",
  "A packet is acted on only once every byte its fixed header declares has arrived; decoding it uses none of the bytes after its declared end, and the next packet starts exactly there. How the network splits or merges the byte stream therefore never changes what is decoded.",
  ["inputs", "schedules"], "all byte streams and all ways of cutting them into reads",
  "No test drives the connection handler at all; the decoder tests always pass exactly one complete packet.",
  ["src/handler.rs", "src/packets/mod.rs", "src/packets/utils.rs"],
  [("read loop", "client_handler: read, Packet::unpack, consume"), ("declared size", "FixedHeader::from_bytes, Packet::unpack")],
  ["packets the handler acts on"])
p("C03", "Remaining Length is read and written as the standard says",
  "A Remaining Length field is read as one to four base-128 digits, least significant first, and a fifth digit is refused. Every packet the broker writes whose body is at most 268,435,455 bytes carries a complete Remaining Length equal to the size of the body that follows it.",
  ["inputs"], "all length values and all digit strings",
  "Tests cover three values below 2^14 and always start from an empty buffer.",
  ["src/packets/utils.rs", "src/packets/mod.rs"],
  [("decode_length", "src/packets/utils.rs"), ("encode_length", "src/packets/utils.rs"), ("Packet::pack", "src/packets/mod.rs")],
  ["first bytes of every packet on the wire"])
p("C04", "Every packet the broker sends has the MQTT 3.1.1 wire layout",
  "Every packet the broker writes starts with the type and flag bits the standard prescribes for it, followed by its fields in the prescribed order, 16-bit fields big-endian and strings prefixed with their byte length. A PUBLISH carries a packet identifier exactly when its QoS is above 0, and CONNACK, SUBACK and the four PUB* acknowledgements, UNSUBACK and PINGRESP have exactly their fixed bodies.",
  ["inputs"], "all field values of every packet the broker can emit",
  "Tests compare five packets against fixed bytes; CONNACK and PUBACK are only printed, and PUBREC, PUBREL, PUBCOMP, SUBACK, UNSUBACK and PINGRESP are not built at all.",
  ["src/packets/mod.rs", "src/packets/headers/fixed_header.rs", "src/packets/headers/connack.rs", "src/packets/enums.rs"],
  [("constructors", "Packet::make_*"), ("body encoder", "VariableHeader::pack"), ("first byte", "FixedHeader::new")],
  ["bytes written to the socket"])
p("C05", "Inbound fields are read from where the standard puts them",
  "Each field of a packet a client may send (type and flag bits, CONNECT flags, keep alive, client identifier, will, user name and password; PUBLISH topic, identifier and payload; SUBSCRIBE and UNSUBSCRIBE lists; acknowledgement identifiers) is decoded from its prescribed position, in the prescribed order, present exactly when its flag says so. The values handed on are those bytes.",
  ["inputs"], "all well-formed packets, including every combination of CONNECT flags",
  "Tests decode one CONNECT without a will, one QoS 1 PUBLISH and single-entry lists.",
  ["src/packets/mod.rs", "src/packets/utils.rs", "src/packets/headers/connect.rs", "src/packets/headers/fixed_header.rs"],
  [("body decoder", "VariableHeader::unpack"), ("flag accessors", "headers::connect::Flags, FixedHeader::get_*"), ("unpack_u16/unpack_string", "src/packets/utils.rs")],
  ["decoded packet values"])
p("C06", "Malformed packets are refused before they have any effect",
  "A packet is refused with an error, and has no effect, if it has a reserved packet type (0 or 15), QoS 3, a wrong protocol name or level, the reserved CONNECT flag set, an empty client identifier without clean session, wrong fixed-header flag bits on SUBSCRIBE, UNSUBSCRIBE or PUBREL, an empty SUBSCRIBE or UNSUBSCRIBE list, a field cut short by the end of the packet, text that is not UTF-8, or a wildcard in a PUBLISH topic. An unknown code is never mapped onto a known value.",
  ["inputs"], "all malformed packets of the listed kinds",
  "One test passes a one-byte integer; no other malformed input is tried.",
  ["src/packets/mod.rs", "src/packets/utils.rs", "src/packets/enums.rs", "src/packets/headers/connect.rs"],
  [("validation", "VariableHeader::unpack"), ("code conversions", "TryFrom<u8> for PacketType, QosLevel, ConnectReturnCode, SubackReturnCode"), ("string decoding", "unpack_string_with_len")],
  ["Err from decoding"])
p("C07", "Nothing takes effect before CONNECT, and CONNECT works once",
  "Until a connection's CONNECT has been accepted, no other packet on it reaches the router or gets a response. A second CONNECT on the same connection ends the connection without registering again.",
  ["histories", "inputs"], "all packet sequences on a connection",
  "No test sends packets to the connection handler.",
  ["src/handler.rs"], [("has_connected", "client_handler")],
  ["router commands, socket writes"])
p("C08", "CONNACK says accepted only after the client is registered",
  "A CONNACK with return code 0 is written only after the router has confirmed the registration of that connection under the client identifier of its CONNECT, at most once per connection, with session-present 0. If registration fails or the router is gone, no accepting CONNACK is sent.",
  ["histories", "schedules"], "all interleavings of connections with the router",
  "No test runs handler and router together.",
  ["src/handler.rs", "src/core/mod.rs"], [("register round trip", "client_handler: RegisterClient, r_rx.await"), ("App::connect", "src/core/mod.rs")],
  ["CONNACK on the wire"])
p("C09", "Each request gets exactly its acknowledgement, after its effect",
  "SUBSCRIBE and UNSUBSCRIBE are answered with SUBACK and UNSUBACK only after the router reported them done; PUBLISH is answered with nothing, PUBACK or PUBREC according to its QoS 0, 1 or 2, only after the message was handed to the router; PUBREC with PUBREL, PUBREL with PUBCOMP and PINGREQ with PINGRESP. Every acknowledgement carries the identifier of the packet it answers and is sent once; other packets get no response.",
  ["histories", "inputs"], "all packets in all connection states",
  "No test drives the handler, so no acknowledgement is ever observed.",
  ["src/handler.rs", "src/packets/mod.rs"], [("packet match", "client_handler"), ("constructors", "Packet::make_*")],
  ["socket writes relative to router commands"])
p("C10", "Every router request is answered once, with one code per filter",
  "The router answers every register, subscribe and unsubscribe request exactly once on every path. A subscribe answer has one code per requested filter in request order: the granted QoS equal to the requested one if the subscription was stored under that filter and QoS, 0x80 otherwise (as for a filter with a misplaced wildcard).",
  ["inputs", "histories"], "all requests in all router states, including unknown clients and refused filters",
  "No test calls the router.",
  ["src/core/mod.rs", "src/main.rs"], [("App::subscribe/unsubscribe/connect", "src/core/mod.rs"), ("command loop", "src/main.rs")],
  ["reply channel, SUBACK codes"])
p("C11", "A publish reaches exactly the filters that match its topic",
  "A subscription to a filter outside $share receives a message exactly when its filter matches the topic level by level: equal text, '+' for exactly one level, a final '#' for any number of remaining levels including none; wildcards in the first level do not match topics starting with '$'. Which other subscriptions exist never changes whether one matches.",
  ["inputs", "histories"], "all topics and all sets of filters",
  "The tree tests insert one filter and print the result; they assert nothing and never mix literal and wildcard filters.",
  ["src/topic_heir.rs", "src/utils.rs"], [("SubscriptionTree::get, SubHier::get", "src/topic_heir.rs"), ("tokenise_topic", "src/utils.rs")],
  ["set of subscribers returned for a topic"])
p("C12", "Subscribe and unsubscribe change exactly the entry they name",
  "Subscribing stores one entry for that client at exactly that filter, replacing the client's previous entry there and nothing else; unsubscribing removes only that client's entry at exactly that filter. No other client's or filter's entry is lost, also when empty branches are pruned.",
  ["histories", "inputs"], "all sequences of subscribe and unsubscribe over all filters and clients",
  "Tests insert and delete a single entry and print the tree.",
  ["src/topic_heir.rs"], [("SubHier::insert/delete", "src/topic_heir.rs"), ("SubscriptionTree::insert/delete", "src/topic_heir.rs")],
  ["later lookups"])
p("C13", "One publish is delivered at most once to each client, at its best QoS",
  "For one published message a client is sent at most one copy even when several of its filters match; that copy is sent at the lower of the published QoS and the highest QoS granted among its matching filters.",
  ["inputs", "histories"], "all overlapping subscription sets and all QoS combinations",
  "Tests never subscribe one client through overlapping filters nor publish through the router.",
  ["src/topic_heir.rs", "src/core/mod.rs"], [("collection by identifier", "SubHier::get, SubscriptionTree::get"), ("App::publish", "src/core/mod.rs")],
  ["PUBLISH packets queued per client"])
p("C14", "Forwarded messages carry the publisher's topic and payload unchanged",
  "Every PUBLISH the broker sends has byte for byte the topic and payload of the PUBLISH it forwards, with DUP and RETAIN clear; at QoS 1 or 2 it has a nonzero packet identifier that changes from one such packet to the next. Every matching subscriber is attempted, also when sending to another one fails.",
  ["inputs", "fault_sequences"], "all messages, all subscriber sets, all failing receivers",
  "No test publishes through the broker.",
  ["src/handler.rs", "src/core/mod.rs", "src/packets/mod.rs", "src/main.rs"], [("publish path", "client_handler Publish arm, Command::Publish, App::publish, Packet::make_publish")],
  ["PUBLISH packets sent to subscribers"])
p("C15", "A slow or stuck client cannot hold up the broker",
  "The router never waits for a client: handing a message or notice to a connection never blocks it, whatever that connection does or does not read. No chain of tasks can wait for each other in a circle.",
  ["schedules", "fault_sequences"], "all schedules, with any number of clients that stop reading",
  "Tests are single-threaded unit tests without channels filled to capacity.",
  ["src/core/mod.rs", "src/main.rs", "src/handler.rs"], [("router task", "src/main.rs command loop, App::*"), ("bounded client channel", "client_handler")],
  ["progress of other clients"])
p("C16", "No subscription-tree lock is taken while one on it is held",
  "While a guard into a concurrent map of the subscription tree is alive, the same map is not accessed in a way that can block on that guard, and no guard is kept across a suspension point. The tree operations therefore never deadlock on themselves.",
  ["schedules", "inputs"], "all paths through the tree operations",
  "A self-deadlock depends on which shard two keys fall into; the few keys in the tests do not decide it.",
  ["src/topic_heir.rs"], [("explicit drop before remove", "SubHier::delete, SubscriptionTree::delete")],
  ["tree operations return"])
p("C17", "Keep Alive: active clients stay, silent ones go, 0 disables it",
  "While waiting for packets a connection is closed for inactivity only if no control packet was received for at least its Keep Alive interval, and one silent for one and a half times a nonzero interval (60 seconds before CONNECT) is closed; every received control packet restarts the interval, and a Keep Alive of 0 turns the limit off. The interval used is the one from the client's CONNECT.",
  ["histories", "schedules", "configurations"], "all packet sequences and Keep Alive values",
  "No test runs the handler; the affected histories take seconds to minutes.",
  ["src/handler.rs"], [("keepalive_timer", "client_handler")],
  ["connection closure"])
p("C18", "A connection ends when its peer closes, fails or disconnects",
  "When the peer closes the stream, the stream fails, a DISCONNECT arrives, a decode error occurs or the router disappears, the connection's handling ends and it processes nothing further from that connection. It never keeps spinning on a closed stream.",
  ["fault_sequences", "histories"], "all points at which a peer or the router can go away",
  "No test drives the handler.",
  ["src/handler.rs"], [("select loop exits", "client_handler")],
  ["termination of the connection task"])
p("C19", "A finished connection leaves nothing behind",
  "However a connection ends (DISCONNECT, error, timeout, closed stream, takeover, shutdown), the connected-clients count is lowered exactly once, and the router, if still running, is told to drop the registration and removes the client's session and all its subscriptions.",
  ["histories", "fault_sequences"], "all exits of the connection handler",
  "No test drives the handler or inspects the router's sessions.",
  ["src/handler.rs", "src/core/mod.rs", "src/core/broker_info.rs"], [("client_inc/client_dec", "client_handler"), ("App::disconnect", "src/core/mod.rs")],
  ["connected count, later deliveries"])
p("C20", "A reconnecting client takes over its identifier cleanly",
  "When a client identifier registers while an older connection holds it, the older connection is told to close, its subscriptions end, and the new connection becomes the registered one with a fresh identity. The end of the older connection, however late it is noticed, never removes the newer registration.",
  ["schedules", "histories"], "all interleavings of two connections using one identifier",
  "The harmful interleaving needs the old connection's end to be processed after the new registration; no test has two connections.",
  ["src/core/mod.rs", "src/handler.rs", "src/core/enums.rs"], [("App::connect/disconnect", "src/core/mod.rs")],
  ["registered sessions"])
p("C21", "Shutdown stops every task and waits for them",
  "On the interrupt signal the broker tells the router to stop, cancels every connection, and returns only after every task it started has finished. Every task it starts is tracked, and every connection observes the cancellation at each point where it waits.",
  ["schedules", "fault_sequences"], "all moments at which the signal arrives, including clients that have stopped reading",
  "No test starts or stops the broker.",
  ["src/main.rs", "src/handler.rs"], [("TaskTracker, CancellationToken", "main"), ("cancelled() branch", "client_handler")],
  ["process exit"])
p("C22", "Packets are written whole and one at a time",
  "Every packet sent to a client is written to its stream in full before anything else is written to it, or the connection ends. Only the connection's own handler writes to the stream.",
  ["fault_sequences", "schedules"], "all short writes the operating system may perform",
  "Short writes need a full socket buffer; no test writes to a socket.",
  ["src/handler.rs"], [("writer", "client_handler")],
  ["bytes on the wire"])
p("C23", "A client acts only under its own identifier",
  "Every registration, subscription, unsubscription and removal sent to the router by a connection names the client identifier decoded from that connection's own CONNECT, or a freshly generated unique one if it was empty. The channel registered is the connection's own.",
  ["inputs", "histories"], "all packet contents",
  "No test drives the handler.",
  ["src/handler.rs", "src/packets/mod.rs"], [("cid", "client_handler"), ("generated identifier", "VariableHeader::unpack")],
  ["router commands"])
p("C24", "Traffic statistics count what they say they count",
  "Each received packet adds its size and one message to the received totals, each packet written to a client adds its size and one message to the sent totals, and each received or forwarded PUBLISH adds one to its own total (one refused because it came before CONNECT need not); nothing else changes them.",
  ["histories"], "all packet sequences",
  "Nothing tests the statistics.",
  ["src/core/broker_info.rs", "src/handler.rs"], [("received_data, sent_data, received_published, sent_published", "src/core/broker_info.rs")],
  ["broker_info::get_stats"])
p("C25", "Messages from one publisher reach a subscriber in the order sent",
  "The messages one connection publishes are handed to the router in order of arrival, the router processes commands one after another in order of receipt, and each connection writes out queued messages in the order they were queued. No step hands messages to concurrently running tasks or takes them out of order.",
  ["schedules", "histories"], "all schedules of publishers, router and subscribers",
  "Order violations need particular schedules; no test has a publisher and a subscriber.",
  ["src/main.rs", "src/handler.rs", "src/core/mod.rs"], [("command channel and loop", "src/main.rs"), ("client event channel", "client_handler")],
  ["order of forwarded PUBLISH packets"])
p("C26", "A QoS 2 message is routed once per exchange",
  "Within a connection a QoS 2 PUBLISH is routed only if its identifier is not already awaiting PUBREL, and PUBREL ends the exchange so that the identifier can be used again. A repeated PUBLISH is acknowledged but not routed again.",
  ["histories"], "all sequences of PUBLISH and PUBREL with any identifiers",
  "No test drives the handler.",
  ["src/handler.rs"], [("Publish and PubRel arms", "client_handler")],
  ["router commands"])
p("C27", "The router and the listener outlive every client",
  "The router stops only when told to exit or when no connection can reach it any more, and processes every kind of command; the listener stops only on the interrupt signal. No error on one connection, and no failed accept, ends either.",
  ["fault_sequences", "histories"], "all client behaviours, accept errors and delivery failures",
  "No test runs the broker's main loop.",
  ["src/main.rs", "src/core/mod.rs"], [("command loop, accept loop", "src/main.rs")],
  ["the broker keeps serving"])
p("C28", "Unchecked conversions only see valid values",
  "Wherever the broker reinterprets raw bytes as an enumeration, the value has been checked to be one of the enumeration's declared values on every path. No other memory-unsafe operation is used.",
  ["inputs"], "all byte values",
  "Undefined behaviour need not show in a test; the conversion tests use one value.",
  ["src/packets/enums.rs"], [("TryFrom<u8> for PacketType", "src/packets/enums.rs")],
  ["type values"])
p("C29", "Retained messages and wills",
  "A message published with RETAIN is kept per topic and sent to later subscribers, and a client's will is published when its connection ends without DISCONNECT.",
  ["histories"], "all publish, subscribe and disconnect histories",
  "Nothing tests either.",
  ["src/handler.rs", "src/core/mod.rs"], [("none: will fields are decoded and dropped, RETAIN is decoded and dropped", "src/handler.rs")])
p("C30", "QoS 1 and 2 messages are redelivered until acknowledged",
  "A message forwarded at QoS 1 or 2 is kept until the subscriber acknowledged it and is sent again after a reconnect of a persistent session.",
  ["histories", "fault_sequences"], "all losses and reconnects",
  "Nothing tests it.",
  ["src/core/mod.rs", "src/core/session.rs"], [("none: the session keeps no in-flight messages", "src/core/session.rs")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
