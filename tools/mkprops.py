#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
ALL = ["src/lib.rs"] + ["src/%s.rs" % m for m in
       "connect connack publish puback pubrec pubrel pubcomp subscribe suback unsubscribe unsuback ping disconnect".split()]
def P(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    return d
PUB = "Packet::write / Packet::read on a BytesMut"
props = [
P("C01", "Encode then decode returns the same packet",
  "Every packet that is encoded successfully decodes back to an equal packet, and decoding consumes exactly the bytes that encoding produced. Equality is up to normal form: an empty property set or an empty login is the same as an absent one, and a QoS 0 publish has no packet identifier. Packets whose mandatory list (filters or reason codes) is empty are outside this guarantee.",
  ["inputs", "configurations"], "All packets of all 14 kinds: every combination of optional fields and properties, every field value, every list and string length up to the wire limits, in the four string configurations.",
  "Tests round-trip about 30 hand-written packets, one or two per kind, with short strings, at most one subscription identifier and none of the acknowledgement reason codes but Success; they never reach list lengths of three, length-field boundaries, or a non-default disconnect reason without properties.",
  ALL, [("per-packet read/write pairs", "src/*.rs"), ("length and write_remaining_length", "src/lib.rs"), ("property sections with a byte cursor", "*Properties::read")], [PUB]),
P("C02", "Encoder output is the MQTT 5 wire image of the packet",
  "The bytes produced for a packet are a well-formed MQTT 5 control packet that, read by the standard's rules alone, denotes exactly that packet: packet type and fixed-header flags, minimal length encodings, protocol name and version, connect and subscription-option bits, property identifiers with their value types, and reason-code numbers. This holds independently of what this library's own decoder would make of them; the order of unrelated properties is free, the order of repeated ones is kept.",
  ["inputs", "configurations"], "All encodable packets of all kinds, all reason codes, all flag combinations, all property subsets, all four string configurations.",
  "Round-trip tests compare the encoder with the decoder of the same crate, so a symmetric mistake in both passes; only two disconnect packets are compared with literal bytes.",
  ALL, [("write of each packet type and property set", "src/*.rs"), ("code/connect_code reason tables", "src/connack.rs, src/puback.rs, src/suback.rs, ..."), ("PropertyType discriminants", "src/lib.rs")], ["bytes appended by Packet::write"]),
P("C03", "Every well-formed MQTT 5 packet is understood",
  "Every well-formed control packet of the 14 supported types, from any MQTT 5 peer, is accepted and yields exactly the field values it carries. That includes forms this library's encoder never chooses: properties in any order, acknowledgements with an omitted reason code or property length, disconnects with a reason code alone, and zero-length strings.",
  ["inputs", "configurations"], "All well-formed frames of the supported packet types, in all four string configurations.",
  "Tests decode only what the crate's own encoder emitted (plus two literal disconnects), so encodings the encoder never picks are not reached at all.",
  ALL, [("per-packet read functions", "src/*.rs"), ("short-form branches on remaining length", "src/puback.rs, pubrec.rs, pubrel.rs, pubcomp.rs, disconnect.rs"), ("property id and reason code tables", "src/lib.rs, src/*.rs")], ["result of Packet::read"]),
P("C04", "Malformed packets are never accepted",
  "A complete frame is refused with an error, never returned as a packet, when it has: an unsupported packet type, a field cut short by the end of the frame, a length of more than four bytes, a missing body, an out-of-range QoS or retain-handling value, a wrong protocol name or version, will flags without a will, a zero packet identifier on a QoS 1 or 2 publish, non-zero disconnect header flags, an unknown reason code, a property that is unknown or not allowed in that packet, an empty list of filters or reason codes, or (in the text string configurations) a string field that is not UTF-8.",
  ["inputs", "configurations"], "All complete frames containing at least one such fault, in any packet kind and position, in all four string configurations.",
  "The test suite has no negative test for malformed input at all.",
  ALL, [("read_u8/read_u16/read_u32/read_mqtt_bytes bounds checks", "src/lib.rs"), ("qos, property and reason tables", "src/lib.rs, src/*.rs"), ("semantic checks in each read", "src/connect.rs, publish.rs, subscribe.rs, disconnect.rs")], ["result of Packet::read"]),
P("C05", "Property sections are confined to their declared length",
  "A property section is decoded from exactly the bytes its length declares: a property that runs past the end of its section makes the packet malformed, every property inside the section is decoded, and the field after the section (payload, filters, reason codes, client id, will topic) starts exactly where the section ends. The number, kind, size or order of the properties never shifts it.",
  ["inputs"], "All packets with property sections: every number, order and size of properties, section lengths shorter or longer than their content, followed by any data.",
  "Tests contain at most one subscription identifier and two user properties and never a section whose declared length disagrees with its content.",
  ["src/lib.rs", "src/connect.rs", "src/connack.rs", "src/publish.rs", "src/subscribe.rs", "src/suback.rs", "src/unsubscribe.rs", "src/unsuback.rs", "src/disconnect.rs", "src/puback.rs", "src/pubrec.rs", "src/pubrel.rs", "src/pubcomp.rs"],
  [("while cursor < properties_len loops", "*Properties::read / extract")], ["result of Packet::read"],
  [("cursor", "bytes of the property section consumed so far", "local variable in each *Properties::read")]),
P("C06", "Reported sizes equal the bytes actually written",
  "A successful write returns exactly the number of bytes it appended, which is also the fixed header plus the remaining length it declares inside the packet. Where a packet type offers a size query, that query returns the same number before the packet is written.",
  ["inputs"], "All encodable packets, including those whose property length or remaining length sits on a 1/2/3/4-byte length-encoding boundary, and reason/property combinations that select a short form.",
  "length_calculation tests check one packet per kind with one long user property; connect has no size test, disconnect is only tested in the forms where its length happens to be right.",
  ALL, [("len()/size()/len_len and write_remaining_length computed separately", "src/lib.rs and each packet file")], ["return value of write and size, BytesMut length"]),
P("C07", "Writing only appends and does not depend on the buffer",
  "Writing a packet only appends: bytes already in the output buffer are never changed, and the appended bytes are the same as those written into an empty buffer. So packets written back to back into one buffer are read back one by one, in order.",
  ["inputs", "histories"], "All packets, all prior buffer contents, all sequences of writes into one buffer.",
  "Every test writes a single packet into a fresh empty buffer, so an absolute index into the output buffer goes unnoticed.",
  ALL, [("put_* / extend_from_slice appends; connect back-patches its flags byte", "src/*.rs, Connect::write")], ["contents of the BytesMut before and after write"],
  [("flags_index", "position of the connect flags byte patched after the payload is written", "Connect::write")]),
P("C08", "Unencodable packets are refused and leave no trace",
  "Writing a packet fails with an error exactly when the packet cannot be represented on the wire: a string or binary field over 65535 bytes, a variable-length integer or packet over 268435455, a QoS 1 or 2 publish without packet identifier, or a connect return code that has no MQTT 5 number. Such a packet is never emitted truncated or altered, and every other packet is written. When the packet-level write fails, the output buffer is exactly what it was before the call.",
  ["inputs", "histories", "fault_sequences"], "All packets with at least one unencodable field, in any position, written into any buffer; values exactly at and just over each limit.",
  "No test makes a write fail.",
  ALL, [("u16::try_from in write_mqtt_bytes, 268435455 limit in write_remaining_length, pkid check in Publish::write, connect_code", "src/lib.rs, src/publish.rs, src/connack.rs"), ("rollback on error", "Packet::write")], ["result of Packet::write and the BytesMut after it"]),
P("C09", "A read consumes exactly one frame or nothing",
  "A read removes from the input buffer exactly the first frame (fixed header plus declared remaining length) when that frame is complete, whether it is then returned as a packet or refused as malformed. It removes nothing when the frame is incomplete, over the size limit, or has a malformed length; the bytes after the frame are never touched or looked at.",
  ["inputs", "histories"], "All buffer contents: any frame of any validity followed by any other bytes, any size limit.",
  "Tests only read a buffer holding exactly one valid packet, so over- or under-consumption with following data, and consumption on error, are never observed.",
  ["src/lib.rs"], [("check + split_to(frame_length)", "Packet::read"), ("parse_fixed_header, FixedHeader::frame_length", "src/lib.rs")], ["BytesMut after Packet::read"]),
P("C10", "More bytes are requested exactly when the frame is incomplete",
  "A read or check asks for more bytes if and only if the buffer holds a proper prefix of a frame (or nothing) that is within the size limit, and never for a frame that is already complete. The number it asks for is at least one and never more than the frame still lacks, and once the frame's length is known it is exactly what is missing.",
  ["inputs", "histories"], "All prefixes of all frames, all remaining-length encodings, all complete frames including malformed ones.",
  "No test reads an incomplete frame; the truncated-content case where a complete frame asks for more bytes needs malformed input.",
  ["src/lib.rs"], [("check, parse_fixed_header, length", "src/lib.rs"), ("in-frame property length parsing", "*Properties::read")], ["result of Packet::read and check"]),
P("C11", "Stream decoding is independent of how bytes arrive",
  "However a byte stream is split into deliveries and whenever reads are attempted in between, the sequence of packets and refusals obtained is the same as when the whole stream is available at once. A refused frame does not affect the decoding of the frames after it, and a reader that fetches only as many bytes as it was asked for obtains every packet without ever needing a byte beyond the current frame.",
  ["schedules", "histories", "inputs"], "All sequences of valid and malformed frames, all ways of chunking them, all interleavings of writes, deliveries and reads.",
  "Tests never deliver a packet in pieces, never put two packets into one buffer and never continue after an error.",
  ALL, [("check leaves the stream untouched; split_to takes exactly one frame", "src/lib.rs")], ["sequence of Packet::read results on one BytesMut"]),
P("C12", "The incoming size limit is enforced exactly and early",
  "With a size limit, a packet whose remaining length exceeds the limit is refused with the limit error, carrying the actual remaining length and the limit, as soon as its fixed header is readable and without waiting for or consuming its body. A packet whose remaining length is at most the limit is handled exactly as if there were no limit.",
  ["inputs", "histories"], "All limits (including zero and the exact length), all remaining lengths, all amounts of the body already received.",
  "All tests pass no limit.",
  ["src/lib.rs"], [("remaining_len > max_size test before the completeness test", "check in src/lib.rs")], ["result of Packet::read and check with a limit"]),
P("C13", "No input and no packet value can crash or hang the library",
  "Reading any bytes with any limit returns a packet or an error, and writing or sizing any packet value that can be constructed returns a result. None of them panics, aborts, overflows or fails to terminate.",
  ["inputs", "configurations"], "All byte strings, all limits, all constructible packet values (every enum variant, every string length), all four string configurations.",
  "Tests feed only valid encodings and never construct the packet values that have no wire representation.",
  ALL, [("bounds checks before each get/split/advance", "src/lib.rs"), ("total code tables", "src/connack.rs and others")], ["Packet::read, check, Packet::write, size"]),
P("C14", "The four string configurations behave alike",
  "The choice of string representation changes nothing observable: the same bytes decode to the same packet or are refused, and the same packet encodes to the same bytes, in all four configurations. The only difference allowed is that the raw-bytes configuration does not check that text is UTF-8.",
  ["configurations", "inputs"], "All inputs and packets, across the default, boxed, borrowed-or-owned and raw-bytes string configurations.",
  "Each configuration runs the same few samples separately; nothing compares results between configurations, and invalid UTF-8 is never fed to any of them.",
  ["src/lib.rs", "src/connect.rs"], [("cfg-selected MqttString, read_mqtt_string, write_mqtt_string, mqtt_string_eq", "src/lib.rs")], ["results of Packet::read/write built with each feature"]),
P("C15", "Whatever is accepted can be forwarded unchanged",
  "Any packet obtained by decoding received bytes, in whatever form the peer chose to encode it, can be encoded again, and decoding that encoding yields the same packet. A relay therefore never fails on, or alters, a packet it accepted.",
  ["inputs", "histories"], "All accepted frames, including non-canonical ones (short forms, reordered or repeated properties, trailing or reserved bits that are tolerated).",
  "Tests start from in-memory packets, never from foreign encodings.",
  ALL, [("read and write of each packet", "src/*.rs")], ["Packet::read, then Packet::write, then Packet::read"]),
P("C16", "Errors name the actual fault and the offending value",
  "When exactly one thing is wrong with a frame, the error returned is the one for that fault, and where it carries a number, the number is the offending value found in the packet. This covers the packet type, protocol name, protocol level, QoS, retain handling, property identifier, reason code, zero packet identifier, empty subscription, non-UTF-8 text, missing body, a remaining length of more than four bytes and a string crossing the frame's end. A refused write likewise names its obstacle: a zero packet identifier, data too long, or a connect code without a number.",
  ["inputs"], "All well-formed frames of all kinds with a single fault injected at any position and with any offending value; packets with one unrepresentable field.",
  "No test provokes a decoding error, so no error variant or payload is ever compared.",
  ALL, [("Error variants constructed at each check", "src/lib.rs, src/*.rs")], ["error returned by Packet::read and Packet::write"]),
P("C17", "All entry points agree",
  "Checking a buffer, reading a packet from it, and decoding or encoding through an individual packet type's own functions agree with one another: the check reports the frame length and packet type that the read then consumes and returns, the same errors for framing, and leaves the buffer untouched. A packet type's own read and write give the same packet and the same bytes as the packet-level operations whenever they succeed. So do the functions of the parts of a packet: property sets, last will, login and filters read and write exactly the bytes, flags and values they have inside the packet.",
  ["inputs"], "All buffers and limits for check versus read; all frames and packets for the per-type functions versus the packet-level ones.",
  "check is never called by a test and type-level functions are only called on two disconnect samples.",
  ALL, [("Packet::read / Packet::write dispatch", "src/lib.rs"), ("check, FixedHeader::packet_type, FixedHeader::frame_length", "src/lib.rs"), ("read/write of property sets, LastWill, Login, Filter", "src/*.rs")], ["check, Packet::read, Packet::write, per-type and per-part read/write"]),
P("C18", "Constructors and conversions give exactly what they name",
  "A packet, filter, login or string made by a constructor holds exactly the arguments it was given, in the order given; every other field is at its default: flags unset, packet identifier zero, reason success, optional fields absent. A number converts to the QoS level, packet type or disconnect reason the standard assigns to it and back, and every other number is refused; a fixed header built from its parts reports their packet type and frame length.",
  ["inputs", "configurations"], "All arguments of the public constructors and all 256 values of each number conversion, in the four string configurations.",
  "Tests build most packets with literal struct syntax and call each constructor at most once with short strings; no test converts a number.",
  ["src/lib.rs", "src/publish.rs", "src/subscribe.rs", "src/unsubscribe.rs", "src/puback.rs", "src/pubrec.rs", "src/pubrel.rs", "src/pubcomp.rs", "src/disconnect.rs", "src/connect.rs", "src/connack.rs"],
  [("X::new, new_many, Default", "src/*.rs"), ("qos, FixedHeader::new, mqtt_string_new", "src/lib.rs"), ("TryFrom<u8> for DisconnectReasonCode", "src/disconnect.rs")], ["return values of the constructors and conversions"]),
P("C19", "Memory use is bounded by the bytes at hand",
  "Reading, checking or decoding never has more memory in use at once than a fixed multiple (128 bytes per byte, plus 8 KiB) of the bytes it was handed, whatever lengths, sizes or counts those bytes announce; a peer that announces a large packet, field or list and sends little of it makes its receiver reserve little. A successful write likewise uses no more than that multiple of the output buffer it leaves.",
  ["inputs", "histories", "configurations"], "All buffers with any announced lengths (remaining length, property length, string and binary lengths), any limit, whole and incomplete frames, all packets written.",
  "No test looks at memory, and none reads input that announces more than it holds.",
  ["src/lib.rs", "src/connect.rs", "src/publish.rs", "src/subscribe.rs", "src/suback.rs", "src/unsubscribe.rs", "src/unsuback.rs"],
  [("check returns InsufficientBytes without touching the stream; lists grow as they are read; strings are copied only after the bounds check", "src/lib.rs and each *::read")], ["memory allocated by Packet::read, check, per-type and per-part read, Packet::write"]),
]
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in props: f.write(json.dumps(p) + "\n")
