#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements are easy to edit)."""
import json, os
MSGS = ["sample-bin/src/main/java/com/finproto/sample/messages", "sse-bin/src/main/java/com/finproto/sse/bin/messages",
        "szse-bin/src/main/java/com/finproto/szse/bin/messages", "bjse-bin/src/main/java/com/finproto/bjse/trade/messages",
        "risk-bin/src/main/java/com/finproto/risk/bin/messages"]
FR = [MSGS[0] + "/RootPacket.java", MSGS[1] + "/SseBinary.java", MSGS[2] + "/SzseBinary.java", MSGS[3] + "/BjseBinary.java", MSGS[4] + "/RcBinary.java"]
CODEC = "codec/src/main/java/com/finproto/codec/"
BM = "codec/src/main/java/com/finproto/bitmap/"
P = []
def p(id, title, stmt, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": stmt, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Every message survives an encode/decode round trip unchanged",
  "For every message type of every protocol module and every assignment of representable field values, decoding the encoded bytes into a fresh object yields an object equal to the original, with every accessor returning the original value, and consumes exactly the bytes that encoding wrote. Representable means: any value of the field's numeric type, text that fits its field (and does not begin, on a left-padded field, or end, on a right-padded one, with the pad character), lists and variable text up to the capacity of their count prefix, and a polymorphic part of the type its selector names; absent and empty text or lists are the same value.",
  ["inputs"], "All ~190 message types x all field assignments, on heap, direct, pooled, composite and offset buffers.",
  "Each test round-trips one hand-picked message per type with the same small digits in every field; sign, width, non-ASCII text, empty/long values, list sizes above 1 and every unregistered selector are never sampled.",
  MSGS, [("paired field-by-field encode and decode", "encode()/decode() of each message class"), ("fixed text read/write", CODEC + "BinaryCodec.java")],
  ["bytes written by encode()", "getters and equals() after decode()", "reader index after decode()"])
p("C02", "Encoded bytes follow the protocol's fixed wire layout",
  "For every message type and every field assignment, the bytes that encoding appends are exactly those of that protocol's layout: the same fields in the same order, each with its fixed width, the protocol's byte order (little-endian for sample and BJSE, big-endian for SSE, SZSE and risk), its padding character and side, and its 16- or 32-bit count or length prefix. A peer that implements the layout of the reference revision of this library therefore reads every field where and as it was sent.",
  ["inputs"], "All message types x all field assignments, including over-long text (cut to the field's width in bytes) and absent text and lists.",
  "The tests only compare a decode with an encode of the same build, so a change made consistently on both sides (a width, an order, a byte order) passes while every deployed peer misreads the message.",
  MSGS, [("order and width of the writes", "encode() of each message class"), ("padding", CODEC + "BinaryCodec.java writeFixedString")],
  ["bytes appended to the buffer by encode()"])
p("C03", "Decoding well-formed bytes yields exactly the values the layout assigns",
  "For every message type and every byte sequence that is well formed under that protocol's layout, whoever produced it, decoding yields for each field exactly the value its bytes denote (all bit patterns of a number; text with only the padding on its padding side removed) and consumes exactly those bytes. When the text in it is valid UTF-8, encoding the decoded message again reproduces the same bytes.",
  ["inputs"], "All message types x all well-formed byte sequences (arbitrary numeric bit patterns, all-padding, interior and opposite-side padding, control and multi-byte characters).",
  "Tests never decode bytes that the same build did not just encode, and never re-encode a decoded message.",
  MSGS, [("order and width of the reads", "decode() of each message class"), ("trimming", CODEC + "BinaryCodec.java readFixedString/trimByChar")],
  ["getters after decode()", "reader index", "bytes of re-encoding"])
p("C04", "Frame headers carry the true body length",
  "In every frame whose format has a computed body-length field (sample, SSE, SZSE and risk), encoding writes into that field, and reports through its getter, exactly the number of bytes its body occupies on the wire, whatever value the application had put there, whatever the body (absent, empty, built-in or application-defined), and wherever in the buffer the frame starts. The BJSE frame, whose length and checksum are application-supplied, carries those values verbatim.",
  ["inputs", "histories"], "All frame types x all bodies x prior field values x buffer positions and previously encoded frames.",
  "Tests encode one small frame at offset 0 of a fresh buffer and compare it with itself after decoding, so a wrong length is read back as the same wrong length and ignored.",
  FR, [("back-patched length", "encode() of the frame classes")], ["length field in the encoded bytes", "length getter after encode()"])
p("C05", "The frame checksum covers exactly that frame's header and body",
  "When a checksum service is registered under the frame's algorithm name (sample: CRC32, SSE: SSE_BIN, SZSE: SZSE_BIN), encoding stores in the frame's last four bytes, and reports through its getter, that service's result over exactly the bytes from the frame's first byte to the last byte of its body, with length already filled in and independent of anything else the buffer holds before the frame. When no service is registered under that name, the checksum set by the application is carried unchanged.",
  ["inputs", "histories", "configurations"], "All checksummed frame types x bodies x registered or replaced or absent services x contents already in the buffer.",
  "No test registers the exchange services, none checks a checksum value in a frame, and none encodes a second frame into the same buffer.",
  [FR[0], FR[1], FR[2], CODEC + "ChecksumServiceFactory.java"], [("checksum calculation over the buffer", "encode() of RootPacket, SseBinary, SzseBinary"), ("service lookup", CODEC + "ChecksumServiceFactory.java")],
  ["bytes a registered service is given", "trailing four bytes", "checksum getter"])
p("C06", "Frames written back to back form a stream that decodes in order",
  "Any sequence of frames of one protocol, of any mixture of types, encoded one after another into one buffer decodes into the same sequence: each decode consumes exactly one frame, leaves the reader at the first byte of the next, and yields a message equal to the one sent. This holds whatever bytes precede or follow the frames, and also when consumed bytes are discarded or the buffer is moved, grown or reused between frames.",
  ["histories", "inputs"], "All sequences of frames of each protocol interleaved with reads, discards, clears and growth of the buffer.",
  "Tests put one frame in a fresh buffer; no test has a second frame, leftover bytes or a reused buffer.",
  FR + MSGS, [("self-delimiting decode", "decode() of frames and messages")], ["sequence of decoded messages", "reader index after each frame"])
p("C07", "Fixed-width text always occupies exactly its width, padded as declared",
  "Writing any text (absent, empty, short, exact or over-long, ASCII or multi-byte) as a fixed-width field appends exactly the field's width in bytes: its UTF-8 bytes, cut to the width if longer, with the declared pad character filling the rest on the declared side. Reading a fixed-width field consumes exactly that width and removes only pad characters, only on the padding side, so any text that fits and does not border on the pad character there is returned intact.",
  ["inputs"], "All strings x widths >= 0 x single-byte pad characters x pad sides x buffer kinds and positions.",
  "Tests cover five right-padded ASCII values; left padding, other pad characters, absent values with left padding, multi-byte cuts and interior padding are not sampled.",
  [CODEC + "BinaryCodec.java"], [("writeFixedString / padChar", CODEC + "BinaryCodec.java"), ("readFixedString / trimByChar", CODEC + "BinaryCodec.java")],
  ["bytes appended", "string returned", "reader/writer index"])
p("C08", "Lists and variable text keep every element up to their prefix's capacity",
  "A list or variable-length text is preceded on the wire by its true element or byte count and comes back with the same number of elements, in the same order, including empty and duplicate elements and at every size its prefix can express (0 to 65,535 for 16-bit prefixes). A list or text too large for its prefix is refused by the encoder; it is never written with a wrong count.",
  ["inputs"], "All list- and text-valued fields x sizes from 0 through and beyond the prefix limit x element values x list implementations.",
  "Tests use lists of one element and strings of seven characters.",
  [MSGS[0] + "/BasicPacket.java", MSGS[0] + "/StringPacket.java", MSGS[0] + "/NestedPacket.java", MSGS[0] + "/SubPacket.java", MSGS[1] + "/ExecRptInfo.java", MSGS[1] + "/ExecRptSync.java", MSGS[1] + "/ExecRptSyncRsp.java", MSGS[2] + "/PlatformInfo.java", MSGS[2] + "/ReportSynchronization.java", MSGS[2] + "/Extend206302.java", MSGS[3] + "/PlatformInfo.java", MSGS[3] + "/ReportSynchronization.java", MSGS[3] + "/QuoteResponse.java", MSGS[3] + "/QuoteStatusReportExtend070.java", MSGS[4]],
  [("count prefixes and element loops", "encode()/decode() of the classes listed")], ["count prefix on the wire", "size and elements after decode()", "exception from encode()"])
p("C09", "Decoding into a reused object leaves no trace of its previous contents",
  "Decoding a message into an object that already holds any other state (from setters or from earlier decodes, including failed ones) gives the same observable result as decoding the same bytes into a fresh object: no field keeps a value from before. In particular empty lists and empty text in the new message replace old contents.",
  ["histories"], "All message types x all pairs (and longer sequences) of messages decoded into the same object.",
  "Every test decodes exactly once into a new object.",
  MSGS, [("assignment of every field in decode()", "decode() of each message class")], ["getters, equals() and re-encoding after the last decode"])
p("C10", "Incomplete messages are rejected and bytes beyond the message are never read",
  "Decoding any strict prefix of a valid encoding, or a message whose count or length prefix promises more than the buffer holds, fails with an exception; it never returns normally. The outcome of a decode (result or failure) depends only on the readable bytes of the buffer, never on what its backing memory holds before the reader or after the writer position, and never moves the reader past the writer.",
  ["inputs", "fault_sequences"], "All message types x all truncation points x corrupted count/length prefixes x buffer kinds x contents of the surrounding memory.",
  "No test decodes a truncated or corrupted message.",
  MSGS + [CODEC + "BinaryCodec.java"], [("bounds checks of the buffer and of text reads", "decode(), " + CODEC + "BinaryCodec.java readFixedString")],
  ["exception or normal return", "reader/writer index", "results under different surrounding memory"])
p("C11", "Hostile input cannot exhaust memory, hang or crash the decoder",
  "For every byte sequence, decoding into any message or frame terminates with either a decoded message or an ordinary runtime exception, never an error such as out-of-memory or stack overflow, and allocates an amount of memory bounded by a constant plus a constant multiple of the bytes available. Any message that decode accepts can be compared, hashed and printed and, where its text is valid UTF-8, encoded again without error.",
  ["inputs", "fault_sequences"], "All byte sequences (random, bit-flipped, spliced, with extreme count/length fields) x all message and frame types x buffer kinds.",
  "No test feeds the decoders anything but their own output.",
  MSGS + [CODEC + "BinaryCodec.java"], [("incremental element loops and bounded text reads", "decode() of each message class")],
  ["throwable type", "bytes allocated by the decoding thread", "watchdog on steps"])
p("C12", "Encoding only appends and decoding only reads, on every kind of buffer",
  "Encoding changes nothing in the buffer but the bytes it appends after the writer position; decoding changes nothing but the reader position; neither changes reference counts. Both behave identically on heap, direct, pooled, composite, sliced, read-only (decode) and minimally sized growable buffers, and a decoded message shares no storage with the buffer, so later writes to, or release of, the buffer cannot alter it.",
  ["inputs", "configurations"], "All message types x buffer implementations x positions x surrounding contents.",
  "All tests use one fresh unpooled heap buffer at position 0.",
  MSGS + [CODEC + "BinaryCodec.java"], [("relative writes and reads only", "encode()/decode() of each message class"), ("absolute back-patching of the length field", "encode() of frame classes")],
  ["guard bytes around the message", "indices and reference count", "decoded value after the buffer is overwritten"])
p("C13", "Selectors dispatch to the right message type and unknown ones are rejected",
  "Each registered message-type number or application id selects, on decode and from the factory, a new object of the message class its protocol assigns to it, never shared with another call; every other selector value is rejected with IllegalArgumentException. Application registrations take effect immediately, replace earlier ones for the same selector only, and after removal the selector is unknown again in every direction (including class-to-type lookup) until re-registered.",
  ["inputs", "histories"], "All selector values of all factories x all sequences of register, replace, remove, create, lookup and decode.",
  "Tests reach one selector per polymorphic class and never an unknown, custom or removed one.",
  FR + MSGS, [("BodyMessageFactory / PayloadMessageFactory / ApplExtendMessageFactory", "frame classes and extensible messages")],
  ["class and identity of created/decoded parts", "exception type", "class-to-type lookup"])
p("C14", "equals and hashCode are a correct value equality for every message",
  "For every message type, two messages are equal exactly when they have the same type and all fields equal: equality is reflexive, symmetric, transitive and false for null and other types, and a difference in any single field makes messages unequal. hashCode returns normally for every message, is stable while the message is unchanged, and is the same for equal messages.",
  ["inputs"], "All message types (including the field-less ones and frames carrying them) x all pairs of field assignments, including pairs that differ in one field.",
  "Tests compare only equal objects and never call hashCode.",
  MSGS, [("equals()/hashCode() of each message class", "each message class")], ["results of equals() and hashCode()"])
p("C15", "Encoding is a repeatable function of the message's current field values",
  "After any sequence of setter calls, encodes and decodes, every getter returns the value last set or decoded for that field (only a frame's computed length and checksum are updated by encoding), and encoding yields the bytes determined by those current values alone. Encoding twice gives the same bytes, changes no other field of the message or of its parts, and each setter affects only its own field.",
  ["histories"], "All sequences of setter, getter, encode, decode and equals calls on messages, including shared and nested parts.",
  "Each test performs one fixed sequence: all setters once, one encode, one decode.",
  MSGS, [("plain field accessors and stateless encode()", "each message class")], ["getters and encoded bytes after every step, against a model"])
p("C16", "toString renders the current value of every field",
  "For every message in every state, printing it returns normally and names the message type and, for each of its fields, the field's name with its current value, including nested messages and list elements.",
  ["inputs"], "All message types x field assignments, including absent parts.",
  "No test looks at toString.",
  MSGS, [("toString() of each message class", "each message class")], ["string returned"])
p("C17", "Concurrent use of separate messages does not interfere",
  "Threads that encode and decode their own message objects in their own buffers, at the same time and in any interleaving, each observe exactly the results they would observe alone, including the first use of every class and the checksums of frames.",
  ["schedules"], "All interleavings of encode, decode, equals, hash, print and checksum operations of several threads on disjoint objects.",
  "All tests are single-threaded.",
  MSGS + [CODEC + "BinaryCodec.java", CODEC + "ChecksumServiceFactory.java"], [("no shared mutable state; registries filled in static initialisers", "all classes")],
  ["per-thread results against the sequential reference"])
p("C18", "Registries are linearizable under concurrent registration and lookup",
  "Each registry (checksum services, and every message-body or extension factory) behaves under concurrent register, remove, lookup and create calls as if the calls on each key took effect one at a time: of several concurrent checksum registrations of one algorithm name exactly one succeeds, an entry nobody removes is never missed by a lookup or by an encode or decode running meanwhile, and no completed registration or removal is lost.",
  ["schedules", "histories"], "All interleavings of registry calls on shared keys and of growth of the registry by other keys.",
  "No test calls a registry from two threads.",
  FR + MSGS + [CODEC + "ChecksumServiceFactory.java"], [("registry maps", "ChecksumServiceFactory and the *MessageFactory enums")],
  ["call/return history of each key, checked against a sequential register"])
p("C19", "Checksum services compute their algorithm on any buffer without disturbing it",
  "For every buffer content, length, position and kind, CRC16 returns CRC-16/MODBUS, CRC32 returns CRC-32/ISO-HDLC and SSE_BIN and SZSE_BIN return the byte sum modulo 256 of exactly the readable bytes, and verification accepts exactly that value. Calculation leaves the buffer's positions and contents unchanged, and a service may be used by many threads and any number of times with the same results.",
  ["inputs", "schedules"], "All byte strings (empty to tens of megabytes) x buffer kinds and positions x repeated and concurrent use.",
  "Two tests check one nine-byte vector each; SSE_BIN, SZSE_BIN, verification, offsets and large buffers are untested.",
  [CODEC + f for f in ("Crc16ChecksumService.java", "Crc32ChecksumService.java", "SseBinChecksumService.java", "SzseBinChecksumService.java", "ChecksumService.java")],
  [("table-driven CRCs and running sums over readable bytes", CODEC)], ["returned value against an independent bitwise/JDK implementation", "buffer state"])
p("C20", "Presence bitmaps keep each position independently",
  "In every bitmap size (8, 16, 32, 64), after any sequence of set and clear operations on valid positions, reading a position tells exactly whether the last operation on that position was a set; operations on one position never change another, a new bitmap is all clear, and queries change nothing.",
  ["histories"], "All four bitmap classes x all sequences of set, clear and get over valid positions.",
  "Only the 8-bit bitmap is tested, with two clears; the 16-, 32- and 64-bit ones have no test.",
  [BM + f for f in ("ByteBitMap.java", "ShortBitMap.java", "IntBitMap.java", "LongBitMap.java")], [("bit masks", BM)], ["get() of every position after every operation, against a set model"])
p("C21", "Presence bitmaps survive being written and read",
  "Writing a bitmap and reading those bytes into any bitmap of the same size, whatever it held before, reproduces the state of every position; writing appends the same fixed number of bytes for every state of a given bitmap size, changes neither the bitmap nor any other byte of the buffer, and reading consumes exactly the bytes that writing appended.",
  ["inputs", "histories"], "All four bitmap classes x all states x buffer positions and kinds.",
  "Only the 8-bit bitmap's serialisation is tested.",
  [BM + f for f in ("ByteBitMap.java", "ShortBitMap.java", "IntBitMap.java", "LongBitMap.java")], [("write()/read()", BM)], ["bytes written, positions after read()"])
p("C22", "Results do not depend on the process environment or on earlier work",
  "Encoding, decoding, comparing and printing messages, computing checksums and using bitmaps give the same bytes, values, acceptance or rejection, and text in every process: whatever its default character set, locale, time zone, line separator, assertion setting, JDK release, compiler, or Netty memory configuration. They do not depend on which other messages the process handled before, how many, successfully or not, or in what order the library's classes were first used.",
  ["inputs", "histories"], "All operations x process configurations x orders and amounts of earlier operations.",
  "The tests run in one process with one configuration (UTF-8, English, assertions on), each operation once, in one order.",
  MSGS + [CODEC + "BinaryCodec.java", CODEC + "ChecksumServiceFactory.java"], [("explicit UTF-8, no locale-sensitive calls, no mutable static state but the registries", "all classes")],
  ["results of numbered operations in differently configured processes"])
p("C23", "Separate messages share no state that can change",
  "A message obtained by decoding or by creating a new object is independent of every other one: changing it - with its setters, in place on its nested messages, body, extension or list elements, through the lists it returns, by decoding something else into it (successfully or not), or by encoding it - never changes what any other message, decoded before or after, from the same bytes or others, holds, encodes to, equals, hashes to or prints; nor what a later decode or a new object gives. Within one message, each nested part and each list element decoded from its own place on the wire can be changed without changing another.",
  ["inputs", "histories"], "All message types x groups of messages decoded from equal or different bytes x sequences of changes to them.",
  "No test holds two messages and changes one of them.",
  MSGS, [("new parts created per decode", "decode() of each message class"), ("suppliers in the selector registries", "frame classes and extensible messages")],
  ["getters, bytes, hash codes and printed forms of the messages not touched"])
p("C24", "Handling messages retains no memory",
  "However many messages a process encodes, decodes (successfully or not), compares, hashes and prints, with whatever contents, on however many threads, and however many selectors and checksum services it looks up in vain or registers and removes again, the memory that stays in use once the messages and buffers are dropped does not keep growing: nothing about them is retained on the heap beyond a fixed amount, and every buffer the library takes from an allocator for temporary use is released again, also when the operation fails.",
  ["histories"], "All message types, registries and services x unbounded sequences of operations with ever new contents.",
  "Each test handles one message and ends; growth is only visible over many thousands of operations.",
  MSGS + [CODEC + "BinaryCodec.java", CODEC + "ChecksumServiceFactory.java"], [("no caches; registries forget what is removed", "all classes; registries of frame classes, extensible messages and ChecksumServiceFactory")],
  ["heap in use after a full collection", "direct memory", "allocations outstanding in the buffer's allocator"])
p("C25", "A message read by several threads at once reads the same for each",
  "As long as nobody changes it, one message object may be read by any number of threads at the same time: its getters, equals, hashCode and toString, the encoding of a message whose format has no computed field, and the encoding of several frames, one per thread, that share one body object, each yield exactly what they yield when one thread does it alone, from the very first reading on.",
  ["schedules", "inputs"], "All interleavings of reading operations of several threads on one message, for all message types and field values.",
  "All tests are single-threaded; a scratch value kept in the message while it is read shows only when two readers overlap.",
  MSGS + [CODEC + "BinaryCodec.java"], [("reading operations write nothing", "encode(), equals(), hashCode(), toString() of all message classes")],
  ["hash code, equality, printed form, getters and encoded bytes per thread, against those of an equal message read alone"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
