#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe, "hook_needed": hook}})

WIRE = ["bytes and closes seen by clients on their MQTT connections"]
NOTEST = "No existing test runs the connection handler, the command loop or the session table at all; "

p("C01", "Publications reach exactly the clients whose filters match the topic",
  "A publication on a topic is delivered to every connected client holding a subscription whose filter matches that topic, and to no other client. A filter matches level by level; '+' matches exactly one level (also an empty one), '#' matches the remaining levels including none, and a wildcard in the first level never matches a topic starting with '$'. A filter '$share/NAME/...' is a filter like any other; only '$share' alone and share names that are wildcards are outside this statement.",
  ["inputs", "histories"], "all sets of subscriptions, all topics, all orders in which subscriptions were added, replaced and removed",
  "The tree tests insert one or two filters and print the result; matching over arbitrary filter sets after arbitrary insert/delete histories is never asserted.",
  ["src/topic_heir.rs", "src/utils.rs", "src/core/mod.rs"],
  [("subscription trie walk", "SubscriptionTree::get / SubHier::get"), ("level tokeniser", "utils::tokenise_topic"), ("fan-out", "App::publish")], WIRE,
  [{"name": "subscription tree", "meaning": "filter levels -> subscribers", "where": "src/topic_heir.rs"}])
p("C02", "One copy per client and publication, however many filters overlap",
  "A client whose subscriptions match a publication through several overlapping filters receives exactly one copy of it, at the highest QoS level granted to any of the matching filters (capped by the QoS of the publication). Removing one of the overlapping filters leaves the others in force.",
  ["inputs", "histories"], "all combinations of overlapping exact, '+' and '#' filters with all QoS levels, subscribed and unsubscribed in any order",
  "No test subscribes one client twice and looks at what it gets.",
  ["src/topic_heir.rs", "src/core/mod.rs"], [("de-duplication by session id", "SubHier::get, SubscriptionTree::get")], WIRE)
p("C03", "A delivery carries the published topic and payload unchanged",
  "Every PUBLISH a subscriber receives is a well-formed MQTT 3.1.1 packet with exactly the topic and payload bytes that were published, with DUP and RETAIN clear, for every topic and payload size the protocol allows.",
  ["inputs"], "all topics (multi-byte UTF-8, empty levels, long), all payloads from empty over the 127/128, 16383/16384 and 2097151/2097152 length-encoding boundaries upward",
  "The codec tests check a handful of packets of at most 30 bytes, none through the broker, none needing more than two length bytes.",
  ["src/packets/mod.rs", "src/packets/utils.rs", "src/core/mod.rs", "src/handler.rs"],
  [("unpack / pack", "Packet::unpack, Packet::pack"), ("remaining length codec", "decode_length, encode_length")], WIRE)
p("C04", "Delivery order: per-publisher FIFO and agreement between subscribers",
  "Publications that one connection sends are delivered to each subscriber in the order they were sent. Any two subscribers receive the publications they both get in the same relative order.",
  ["schedules", "histories"], "all interleavings of several publishers, subscribers and bursts larger than any internal queue",
  NOTEST + "ordering depends on the interleaving of tasks and queues.",
  ["src/handler.rs", "src/core/mod.rs", "src/main.rs"], [("single command loop", "main.rs command task"), ("per-client event queue", "client_handler rx branch")], WIRE)
p("C05", "Behaviour does not depend on how the byte stream is segmented",
  "What the broker does with a client's byte stream depends only on the bytes, never on how they were split or coalesced into reads: a packet arriving in pieces, many packets arriving at once, and packets larger than any read buffer are each processed once, whole and in order.",
  ["inputs", "schedules"], "all segmentations of all packet sequences, with other clients' traffic in between",
  "The codec tests always hand over exactly one complete packet.",
  ["src/handler.rs", "src/packets/mod.rs", "src/packets/headers/fixed_header.rs"], [("inbound buffering and framing", "client_handler read branch"), ("fixed header decoding", "FixedHeader::from_bytes, decode_length")], WIRE)
p("C06", "Subscribe and unsubscribe take effect no later than their acknowledgement",
  "A SUBACK carries one return code per requested filter in request order (the granted QoS, or 0x80 for a filter that was refused), and from then on matching publications are delivered; publications processed after the UNSUBACK are not. Subscribing again to the same filter replaces the previous grant, and unsubscribing affects only that client's subscription to exactly that filter.",
  ["histories", "schedules"], "all histories of subscribe, re-subscribe, unsubscribe by several clients sharing filters, with publications racing them",
  "No test sends a SUBSCRIBE through the broker; test_insert_replace and test_delete only print the tree.",
  ["src/core/mod.rs", "src/topic_heir.rs", "src/handler.rs"], [("subscribe / unsubscribe commands", "App::subscribe, App::unsubscribe"), ("trie insert and delete with pruning", "SubHier::insert, SubHier::delete")], WIRE)
p("C07", "Every request gets exactly its own response, in order",
  "Each CONNECT, SUBSCRIBE, UNSUBSCRIBE, PINGREQ, QoS 1 or 2 PUBLISH, PUBREC and PUBREL that a connected client sends is answered exactly once with the matching response type and the same packet identifier, in the order the requests were sent. No other response is ever sent (except that a second CONNECT, which ends the connection, may be refused with a CONNACK), and PUBACK and PUBCOMP from a client are not answered.",
  ["histories", "schedules"], "all sequences of requests, pipelined or not, with all packet identifiers, while deliveries are in flight",
  NOTEST + "the response packets are only tested as byte builders.",
  ["src/handler.rs", "src/packets/mod.rs"], [("per-packet dispatch", "client_handler match on VariableHeader")], WIRE)
p("C08", "A QoS 2 publication retransmitted before its release is delivered once",
  "Within one connection, a QoS 2 PUBLISH repeated with the same packet identifier before the PUBREL is acknowledged with PUBREC again but delivered to subscribers only once. After the PUBREL the identifier denotes a new publication.",
  ["histories"], "all histories of QoS 2 publish, duplicate, PUBREL and identifier reuse, with several identifiers outstanding",
  NOTEST + "duplicates only arise in multi-step histories.",
  ["src/handler.rs"], [("QoS 2 receiver state", "client_handler Publish / PubRel branches")], WIRE)
p("C09", "Deliveries use the right QoS and usable packet identifiers",
  "A delivery's QoS is the lower of the QoS it was published with and the QoS granted to the subscriber. A QoS 0 delivery carries no packet identifier; a QoS 1 or 2 delivery carries a non-zero one that differs from that of the client's other recent unacknowledged deliveries.",
  ["inputs", "histories"], "all pairs of publication and subscription QoS, and long series of deliveries to several clients",
  "test_pack_publish_packet packs one publication with a hand-chosen identifier; what the broker itself puts on the wire is untested.",
  ["src/core/mod.rs", "src/packets/mod.rs", "src/topic_heir.rs"], [("outbound publication", "App::publish, Packet::make_publish")], WIRE)
p("C10", "Nothing happens on a connection before a successful CONNECT",
  "Until a connection's CONNECT has been accepted the broker performs no operation for it and sends it nothing: any other first packet only closes that connection. The CONNACK is the first packet the client receives, with session-present 0, and a second CONNECT closes the connection without registering anything (a CONNACK with a non-zero return code may be sent before).",
  ["histories", "inputs"], "all packet types as first packet or as follow-up, pipelined before and after the CONNECT",
  NOTEST + "the handler's state checks are untested.",
  ["src/handler.rs"], [("has_connected flag", "client_handler"), ("CONNACK", "Packet::make_connack")], WIRE)
p("C11", "Refused CONNECTs get the prescribed return code and leave no trace",
  "A CONNECT with an unsupported protocol level is answered with CONNACK return code 1, one with an empty client identifier and clean session 0 with return code 2, and the connection is then closed; an empty identifier with clean session 1 is accepted with an identity of its own. A refused CONNECT neither disconnects nor alters any other client.",
  ["inputs"], "all protocol levels, flag bytes, identifiers and optional fields of a CONNECT",
  "Only one well-formed CONNECT is ever parsed by the tests, none by a running broker.",
  ["src/packets/mod.rs", "src/handler.rs"], [("CONNECT decoding", "VariableHeader::unpack"), ("refusal", "client_handler")], WIRE)
p("C12", "A client identifier belongs to one connection: the newest",
  "When a client connects with an identifier that is in use, the earlier connection is closed and the new one starts with no subscriptions. From then on nothing the earlier connection still does or has in flight (its disconnect, subscriptions, unsubscriptions or end) affects the new connection.",
  ["schedules", "histories"], "all interleavings of the earlier connection's last packets and end with one or more takeovers of its identifier",
  NOTEST + "the failures need a specific interleaving of two handlers and the command loop.",
  ["src/core/mod.rs", "src/handler.rs"], [("takeover", "App::connect"), ("disconnect", "App::disconnect, client_handler exit")], WIRE)
p("C13", "Malformed input closes only the connection it came from",
  "Any byte sequence that is not a valid packet stream makes the broker close that connection, after processing the packets before it and without performing any part of the malformed packet. It never crashes the broker or a connection task, and no other connection is affected.",
  ["inputs"], "all byte sequences: truncated, oversized, inconsistent lengths, reserved types, flags and QoS values, invalid UTF-8, garbage, with or without a preceding session",
  "The unit tests decode well-formed packets only (one test checks one short u16).",
  ["src/packets/mod.rs", "src/packets/utils.rs", "src/packets/enums.rs", "src/packets/headers/fixed_header.rs", "src/packets/headers/connect.rs", "src/handler.rs"],
  [("decoder error paths", "VariableHeader::unpack, unpack_string, decode_length"), ("error exit", "client_handler")], WIRE)
p("C14", "No client can stop the broker from serving the others",
  "Whatever clients do, including not reading what they are sent while being flooded, flooding the broker, stopping mid-packet, vanishing, or several of these at once, every other connection's requests are answered and its matching publications delivered. There is no reachable state in which the command loop and connection handlers wait for each other.",
  ["schedules", "fault_sequences", "histories"], "all combinations of stalled, flooding and vanishing clients and queue fill levels, all interleavings",
  NOTEST + "deadlocks need full queues and specific interleavings.",
  ["src/core/mod.rs", "src/handler.rs", "src/main.rs"], [("bounded command queue and per-client queues", "channel(100) in main.rs and client_handler"), ("fan-out", "App::publish")], WIRE,
  [{"name": "command queue", "meaning": "handlers -> command loop", "where": "src/main.rs"}, {"name": "client queue", "meaning": "command loop -> handler", "where": "src/handler.rs"}])
p("C15", "Keep-alive: silent clients are closed, active ones are not",
  "With keep-alive K > 0 a client that sends some control packet at least every K seconds, and reads what it is sent, is never closed for inactivity, and one that sends nothing is closed no later than 1.5 K seconds after its last packet; with K = 0 it is never closed for inactivity. A connection that does not complete a CONNECT is closed within one minute.",
  ["schedules", "inputs"], "all keep-alive values, all packet types as signs of life, all timings",
  NOTEST + "timing behaviour cannot be sampled by unit tests.",
  ["src/handler.rs"], [("keepalive timer", "client_handler")], WIRE)
p("C16", "The end of a connection is noticed at once, without losing what came before",
  "When a client sends DISCONNECT, closes its side, or its connection breaks, the broker promptly closes the connection and stops spending work on it. Complete packets received before a DISCONNECT or an orderly close are all processed; nothing after a DISCONNECT is.",
  ["fault_sequences", "schedules"], "every way a connection can end at every point of its life, also mid-packet, before CONNECT and during deliveries",
  NOTEST + "connection faults are not reachable from unit tests.",
  ["src/handler.rs"], [("end of stream and error branches", "client_handler read branch"), ("DISCONNECT", "client_handler Disconnect branch")], WIRE)
p("C17", "An interrupt always ends the broker",
  "On an interrupt signal the broker closes every connection and terminates, whatever state its clients and queues are in, including stalled and half-connected clients and full queues.",
  ["schedules", "histories"], "an interrupt at every point of every history",
  NOTEST + "main() is never run by the tests.",
  ["src/main.rs", "src/handler.rs"], [("cancellation token and tracker", "main.rs"), ("Exit command", "Command::Exit")], ["closing of connections and return of main"])
p("C18", "Outgoing packets are written whole and never interleaved",
  "The bytes a client receives are always a sequence of complete, well-formed packets, however little the socket accepts at a time and whatever mixture of responses and deliveries is pending; only the closing of the connection may cut one short.",
  ["schedules", "fault_sequences"], "all partial-write and back-pressure patterns of the socket with responses and deliveries pending",
  NOTEST + "short writes never happen in unit tests.",
  ["src/handler.rs"], [("writes", "client_handler writer")], WIRE)
p("C19", "An acknowledged publication is delivered even if its publisher goes away",
  "Once the broker has sent PUBACK or PUBREC for a publication it is delivered to every client that is subscribed to its topic from before it was sent, regardless of what the publisher does next (disconnect, break, be taken over or be closed for an error).",
  ["schedules", "crash_points"], "the publisher ending in any way at any point after the acknowledgement, with any queue fill level",
  NOTEST + "needs a fault right after the acknowledgement.",
  ["src/handler.rs", "src/core/mod.rs"], [("hand-over before acknowledgement", "client_handler Publish branch")], WIRE)
p("C20", "Invalid topic names and filters never enter the system",
  "A PUBLISH whose topic name is empty or contains a wildcard character closes the connection and is delivered to nobody. A subscription filter that is empty, or uses '#' other than as the whole last level or '+' other than as a whole level, is refused with return code 0x80 and matches nothing, while the other filters of the same request are still granted.",
  ["inputs"], "all topic names and filters, alone or among valid ones in one request",
  "tokenise_topic is tested on three well-formed topics.",
  ["src/packets/mod.rs", "src/topic_heir.rs", "src/utils.rs", "src/core/mod.rs"], [("SUBACK failure code", "App::subscribe"), ("decoder", "VariableHeader::unpack")], WIRE)
p("C21", "A departed client leaves nothing behind",
  "When a connection ends for whatever reason, its session and subscriptions are released: nothing is retained for it, and it can come back under the same identifier as if for the first time, without its earlier subscriptions or leftovers of them affecting what it receives.",
  ["histories", "fault_sequences"], "all histories of connecting, subscribing, ending (DISCONNECT, close, break, keep-alive, protocol error, takeover) and reconnecting",
  NOTEST + "leaks and stale state need reconnect histories.",
  ["src/core/mod.rs", "src/topic_heir.rs", "src/handler.rs"], [("session table", "App::connect, App::disconnect"), ("subscription removal", "SubscriptionTree")],
  WIRE + ["number of live senders of the channels of closed connections"])
p("C22", "Every client that comes is let in",
  "From its start until an interrupt the broker listens on port 1883 of every address, accepts every connection and answers every valid first CONNECT with CONNACK return code 0, however many clients there are, whatever those before it did or failed to do, and also after attempts to accept a connection have failed. It never ends of its own accord.",
  ["histories", "fault_sequences", "schedules"], "all histories of arriving clients (simultaneous, idle, broken off, refused, stalled) and of failing accepts",
  NOTEST + "main() and its accept loop are never run by the tests.",
  ["src/main.rs", "src/config.rs", "src/handler.rs", "src/core/mod.rs"], [("accept loop", "main"), ("listening address", "ConfigBuilder"), ("registration", "App::connect")],
  WIRE + ["listening socket"])
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
with open("properties.jsonl", "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
