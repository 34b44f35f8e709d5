#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for the property texts)."""
import json, os
P = []
I = "include/novatel_edie/"
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

CRC = I + "common/crc.hpp"; OCRC = I + "decoders/oem/crc.hpp"; FB = I + "common/fixed_buffer.hpp"
CC = I + "common/common.hpp"; DC = I + "decoders/common/common.hpp"; OC = I + "decoders/oem/common.hpp"
CNT = I + "decoders/common/message_counts_tracker.hpp"
FRH = I + "decoders/common/framer.hpp"; FRC = "src/decoders/common/src/framer.cpp"
OFR = "src/decoders/oem/src/framer.cpp"
FAB = I + "decoders/oem/framer_ascii_base.hpp"; FBB = I + "decoders/oem/framer_binary_base.hpp"
FA = "src/decoders/oem/src/framer_ascii.cpp"; FAS = "src/decoders/oem/src/framer_ascii_short.cpp"
FBI = "src/decoders/oem/src/framer_binary.cpp"; FBS = "src/decoders/oem/src/framer_binary_short.cpp"
FAA = "src/decoders/oem/src/framer_abb_ascii.cpp"
FM = "src/decoders/common/src/framer_manager.cpp"; FMH = I + "decoders/common/framer_manager.hpp"
HD = "src/decoders/oem/src/header_decoder.cpp"
MD = "src/decoders/common/src/message_decoder.cpp"; MDH = I + "decoders/common/message_decoder.hpp"
OMD = "src/decoders/oem/src/message_decoder.cpp"
ENH = I + "decoders/common/encoder.hpp"; OEN = "src/decoders/oem/src/encoder.cpp"; OENH = I + "decoders/oem/encoder.hpp"
FI = "src/decoders/oem/src/filter.cpp"; FIH = I + "decoders/oem/filter.hpp"
DB = "src/decoders/common/src/message_database.cpp"; DBH = I + "decoders/common/message_database.hpp"
RD = "src/decoders/oem/src/rangecmp/range_decompressor.cpp"; RCH = I + "decoders/oem/rangecmp/common.hpp"
CTS = "src/decoders/oem/src/rangecmp/channel_tracking_status.cpp"; CTSH = I + "decoders/oem/rangecmp/channel_tracking_status.hpp"
RX = "src/decoders/oem/src/rxconfig/rxconfig_handler.cpp"
PA = "src/decoders/oem/src/parser.cpp"; CO = "src/decoders/oem/src/commander.cpp"
FPH = I + "decoders/common/file_parser.hpp"; JR = "src/decoders/common/src/json_db_reader.cpp"

# ---------------------------------------------------------------- checksums
p("C01", "Table-driven CRC equals the bitwise polynomial definition",
  "For every supported width (8, 16, 32, 64 bits), polynomial, bit order, initial value and input buffer, the block CRC equals the remainder obtained by shifting the message bits one at a time through the polynomial. This holds for the byte-at-a-time function as well.",
  ["inputs", "configurations"], "every register value and byte string (bounded length), for every polynomial of each width in the table step and for named polynomials in the block step",
  "Tests check one byte string per polynomial; a wrong table entry or a wrong shift shows only for particular register values or bytes.",
  [CRC], [("lookup-table generation", CRC), ("byte step, forward and reflected", CRC)], observe=["return values of the CRC functions"])
p("C02", "Splitting a buffer never changes its CRC",
  "Computing a CRC over a buffer in any sequence of consecutive pieces, feeding each result in as the next starting value, gives the same value as one pass over the whole buffer. An empty piece leaves the value unchanged.",
  ["inputs", "histories"], "every buffer, every split position, every starting value, every width and bit order; bounded length",
  "Tests compute each checksum in one call from the default start value; no test splits a buffer.",
  [CRC, OCRC], [("initial-value parameter of the block functions", CRC), ("receiver CRC block function", OCRC)])
p("C03", "Receiver message CRC is exact for every length and starting value",
  "The checksum used to validate receiver messages equals the reflected CRC-32 of the bytes (polynomial 0xEDB88320, no final inversion) for every buffer length, content and starting value, including lengths at which an accelerated path takes over.",
  ["inputs"], "every byte string up to the bound (all lengths around the accelerated path's block boundaries) and every 32-bit starting value",
  "Tests use one or two sample messages; the accelerated loop's folding terms matter only for specific long inputs.",
  [OCRC, CRC], [("accelerated block loop and tail", OCRC)])
# ---------------------------------------------------------------- ring buffer
p("C04", "The input buffer is an exact FIFO",
  "After any sequence of writes, discards and clears, the buffer reads back as exactly the bytes written and not yet discarded, in order, with the matching size and emptiness. A write is accepted in full or, when it does not fit the remaining capacity, refused and leaves the content unchanged.",
  ["inputs", "histories"], "every valid internal state (any content, offset, size), every operation and argument: one inductive step",
  "Compaction depends on the joint value of offset, size and write length; tests never touch this class directly in the built suite.",
  [FB], [("lazy compaction on write", FB), ("discard from the front", FB)],
  [("head offset and size", "window of live bytes inside double-size storage", FB)])
p("C05", "Pattern search in the input buffer returns the first match",
  "Searching the buffer for a byte pattern from any start offset returns the first position at which the live bytes match the pattern, or a match of the part of it that fits at the very end of the live bytes; it reports no match exactly when there is none. It never inspects bytes outside the live window.",
  ["inputs"], "every live content up to the bound, every pattern up to 4 bytes, every start offset",
  "Correctness depends on repeated first characters and on matches cut by the end of data; sample inputs miss them.",
  [FB], [("search over the live window", FB)])
p("C06", "Moving the input buffer transfers its content intact",
  "Moving the buffer, by construction or assignment, gives the destination exactly the bytes the source held, in order, with the same size, capacity and emptiness, and the destination then behaves like the original under any further operation.",
  ["inputs", "histories"], "every valid internal state and one following operation on the destination",
  "No test moves the buffer after a discard has moved its start.",
  [FB], [("move construction and assignment", FB)])
p("C07", "Message counters equal the number of times each key was counted",
  "After any history of increments and resets, the count reported for every key equals the number of times that key was counted since the last reset, and keys never counted are absent.",
  ["inputs", "histories"], "every sequence of up to 4 operations over arbitrary keys and arbitrary existing counts",
  "Tests use a few fixed keys; confusing two keys that collide or compare equal in part needs particular key values.",
  [CNT], [("per-key increment and reset", CNT)], [("counts map", "key to number of occurrences", CNT)])
p("C08", "Tolerant comparison and digit conversion are exact",
  "The tolerant comparison of two numbers is true exactly when their absolute difference is less than the tolerance, is symmetric, and is false when either is not a number; converting a digit character gives its numeric value.",
  ["inputs"], "every pair of doubles and every tolerance; every digit character",
  "Tests compare a few pairs; sign, infinity and not-a-number cases need particular values.", [CC, "src/common/src/common.cpp"], [("comparison and digit helpers", "src/common/src/common.cpp")])
p("C09", "Packed message identifiers round-trip losslessly",
  "Packing a message number with its sibling, format and response attributes and unpacking the result returns the same attributes for every in-range combination; unpacking then packing an arbitrary identifier preserves every defined bit.",
  ["inputs"], "all 32-bit identifiers; all combinations of 16-bit number, 5-bit sibling, 2-bit format, response bit",
  "Tests see a few dozen real identifiers, nearly all with sibling 0.", ["src/decoders/common/src/common.cpp", DC], [("bit masks for each attribute", DC)])
p("C10", "Output helpers never write beyond the space given and write exact bytes",
  "Each helper that appends one item of text or binary data to an output buffer either writes exactly the requested bytes and moves the cursor and remaining space by their number, or fails leaving the cursor and remaining space as they were; it never touches memory outside the space given. Integers written as text read back as the same value.",
  ["inputs"], "every remaining size, source content and length up to the bound, every integer value",
  "Off-by-one at the last byte of room shows only when remaining space equals the output length.",
  [ENH, DC], [("space check before each append", ENH)])
# ---------------------------------------------------------------- framing
FRF = [OFR, FRC, FRH]
p("F01", "A framer only returns well-formed frames with a valid checksum",
  "Whatever bytes are supplied, every frame reported as a success starts with the right sync bytes for its reported format, has exactly the length its header or terminator defines, and carries a checksum equal to the CRC of its content.",
  ["inputs", "histories"], "every input byte string up to the bound, for the combined framer and every single-format framer",
  "Tests feed valid logs plus a few corruptions; accepting a bad frame needs inputs nobody wrote down.",
  FRF + [FA, FAS, FBI, FBS], [("sync search, end-of-frame search, CRC validation", OFR)])
p("F02", "Framing loses, duplicates and reorders no byte",
  "With reporting of unknown bytes on, the concatenation of everything a framer returns (frames and unknown bytes) followed by what it still holds equals the bytes written to it, in order.",
  ["inputs", "histories"], "every input byte string up to the bound and every sequence of read calls",
  "Conservation at junk/partial-frame boundaries involves many rewinding branches sampled by few tests.",
  FRF + [FA, FAS, FBI, FBS, FAA], [("unknown-byte handling and erase of returned bytes", FRC)])
p("F03", "A valid frame is found after arbitrary preceding junk",
  "A complete valid message preceded by bytes that cannot start or contain another message is returned intact, at its true length and with its true format, once the junk has been reported. A complete valid message that follows a binary, ASCII or NMEA message cut short at any byte is likewise not lost.",
  ["inputs"], "every junk prefix up to the bound (without sync bytes) before a valid frame with arbitrary header fields and payload",
  "Tests use a few fixed prefixes.", FRF + [FA, FAS, FBI, FBS], [("resynchronisation after junk", OFR)])
p("F04", "Framing does not depend on how the input was cut into writes",
  "The frames and unknown bytes obtained from a byte stream, concatenating adjacent unknown bytes, are the same however the stream was divided into successive writes.",
  ["inputs", "histories"], "every input up to the bound, every split point, reading after each write",
  "Tests write whole logs or cut at one place; state kept between calls matters at every cut.",
  FRF, [("state kept between calls: partial frame length and state", FRH)])
p("F05", "A frame too big for the caller's buffer is reported, not lost or truncated",
  "A framer never writes more bytes than the size of the output buffer it was given; when a frame or unknown run does not fit it reports a full buffer or delivers the unknown bytes in pieces, and a later call with enough room still delivers the complete frame.",
  ["inputs", "configurations"], "every output size from 0 up to the frame length, every input up to the bound",
  "Existing tests use one oversized and one undersized case.", FRF, [("size check before copy", FRC)])
p("F06", "Framers never read or write outside the live input and output buffers",
  "For every input, a framer inspects only bytes that were written to it and not yet returned, and writes only inside the caller's buffer; no input makes it loop forever.",
  ["inputs", "histories"], "every input byte string and output size up to the bound, all framers",
  "Out-of-window reads are silent: they return stale bytes rather than crash.", FRF + [FA, FAS, FBI, FBS, FAA], [("length tests before field reads", OFR)])
p("F07", "Flushing returns everything held and leaves the framer like new",
  "Flushing returns all bytes held, in order, and afterwards the framer behaves as a newly built one for any further input.",
  ["inputs", "histories"], "every input up to the bound, then flush, then a second valid message",
  "Tests flush after complete logs only.", FRF + [FM], [("flush and state reset", FRC)])
p("F08", "Payload-only mode returns exactly the payload bytes of each frame",
  "With payload-only output on, the combined receiver framer delivers for each binary frame exactly its body (without header and checksum), and text frames whole; each success consumes exactly its frame and later frames are unaffected.",
  ["inputs", "configurations"], "every payload content and length up to the bound, two consecutive frames",
  "No test of the combined framer uses this option.", FRF + [FA, FBI], [("payload-only copy and erase", FRC)])
p("F09", "The framer manager delivers the same frames as a lone matching framer",
  "With several framers registered, every input byte is delivered exactly once and in order, a valid message of any registered format is reported with the right format, and unregistered formats come out as unknown bytes.",
  ["inputs", "histories"], "every input up to the bound around a valid frame of each format",
  "Ordering between framers depends on relative positions of their candidate frames.", [FM, FMH], [("candidate ordering across framers", FM)])
p("F10", "Abbreviated ASCII responses and logs are framed line by line without loss",
  "An abbreviated ASCII message is returned as the run of lines that belong to it, ending at its line terminator, and bytes around it are reported as unknown; nothing is lost.",
  ["inputs"], "every input up to the bound over the characters that matter to the state machine",
  "Prompt, indentation and terminator bytes combine in ways samples miss.", [FAA, OFR], [("line continuation state machine", FAA)])
p("F11", "Frame metadata matches the frame's own header",
  "For every frame returned, the reported format, total length and response indication are those of that frame's own sync bytes, length field and text. They depend neither on the frames seen before nor on whether the caller passes a new or a used metadata object.",
  ["inputs", "histories"], "every ordered pair of message kinds, and every kind after a rejected message, with arbitrary contents",
  "Tests check metadata for a few fixed logs.", [OFR, FBI, FBS, FBB, OC], [("metadata extraction while framing", OFR)])
# ---------------------------------------------------------------- header decoding
p("H01", "Binary headers decode to exactly the fields they carry",
  "Decoding a binary header of either length yields each field with the value written at its documented byte position, little-endian, with format, response flag and sibling taken from the documented bits, and absent fields in the short form reported with defaults.",
  ["inputs"], "all values of every header byte", "Tests decode a handful of real headers, in which many fields are zero.",
  [HD, OC], [("copy from header structure to intermediate form", HD)])
p("H02", "Text headers decode to the values written in their fields",
  "Decoding an ASCII, short ASCII, abbreviated ASCII or JSON header yields the message, sibling, port, sequence, idle time, time status, week, milliseconds, receiver status, definition CRC and software version written in it, whatever the structures given held before; fields the form does not carry get their defaults.",
  ["inputs"], "all digit values of each numeric field and all listed enumerators",
  "Tests use a few logs with similar values.", [HD, DC], [("token split and numeric conversion", HD)])
p("H03", "Malformed headers are rejected without reading past the header",
  "A header whose sync bytes, field beginnings, numeric ranges or delimiters do not match a known form is reported as a failure; header decoding never reads outside the terminated buffer it was given.",
  ["inputs"], "every terminated byte string up to the bound", "Tests use a small set of broken headers.", [HD], [("format detection and delimiter checks", HD)])
p("H04", "Decoded-message counters advance exactly once per decoded message",
  "Each successfully decoded header with a non-zero message identifier adds one to the counter for its own identifier, format and sibling and to no other; failures add nothing; a reset clears every counter.",
  ["inputs", "histories"], "every pair of binary headers", "Tests count a few fixed messages.", [HD, CNT, OMD], [("count on successful decode", HD)])
# ---------------------------------------------------------------- body decode / encode
p("M01", "Binary bodies decode each field from its declared position",
  "For every message definition and binary body, decoding gives each field the value whose bytes stand at the field's declared position, with declared type and width, including array counts, variable arrays, field arrays and strings.",
  ["inputs", "programs"], "every body content for a set of definitions covering every field kind and data type, array sizes symbolic up to the bound",
  "Tests decode real logs, each exercising few type/layout combinations.", [MD, MDH, OMD], [("typed copy with alignment", MD)])
p("M02", "Binary decode then encode reproduces the original message",
  "Decoding any well-formed binary message and encoding it back as binary gives the identical bytes, including its checksum.",
  ["inputs", "programs"], "every field value for definitions covering every field kind", "Tests round-trip a few logs.", [MD, ENH, OEN], [("symmetric binary decoder and encoder", ENH)])
p("M03", "Text encode then decode preserves every field value",
  "Encoding a decoded message as ASCII and decoding that text again yields the same integer, hexadecimal, boolean, enumeration and string values in every field, and the text carries a checksum the framer accepts.",
  ["inputs", "programs"], "every integer value of each type and width, every escaped or plain character", "Round-trips in tests use sample logs; extreme values and escapes are not among them.",
  [MD, ENH, OEN], [("format strings per conversion", ENH), ("quoting and escaping of strings", ENH)])
p("M04", "Encoding never writes outside the caller's buffer",
  "For every message, output format and buffer size, encoding writes only inside the buffer given and reports a full buffer when the message does not fit.",
  ["inputs", "configurations"], "every buffer size from 0 past the encoded length, all output formats, every field value up to the bound",
  "Tests use one size too small; each append site has its own boundary.", [OEN, ENH, OENH], [("space check at each append", ENH)])
p("M05", "Decoding never reads outside the message bytes",
  "For every definition and every byte string, of any length, decoding the body reads only the bytes declared to belong to the message and otherwise fails.",
  ["inputs", "programs"], "every body content and every length from 0 up to the bound", "Truncated and inconsistent bodies are endless in kind.", [MD, MDH, OMD], [("length checks while walking fields", MD)])
p("M06", "Enumerations map between names and values consistently",
  "A text enumerator decodes to the value its definition lists for that name, and encoding that value gives the same name; values the definition does not list are still preserved by binary output.",
  ["inputs", "programs"], "every enumerator and every raw value", "Tests use few enumerations.", [MD, DBH, ENH], [("enum lookup by name and by value", DBH)])
p("M07", "JSON output is well-formed and carries the same field values",
  "Encoding a message as JSON yields one syntactically valid JSON object holding every field under its name with the decoded value.",
  ["inputs", "programs"], "every field value for definitions covering every field kind", "Tests compare a few golden outputs.", [ENH, OEN], [("JSON emitters", ENH)])
p("M08", "A message with an unknown definition is reported and not misdecoded",
  "A message whose identifier or definition checksum is unknown is reported as having no definition, or decoded with the newest definition of that identifier when only the checksum is unknown.",
  ["inputs", "programs"], "every identifier and checksum over databases of up to 3 messages with up to 2 definitions each", "Tests use one unknown message.", [OMD, MD, DBH], [("definition selection by checksum with fallback", DBH)])
# ---------------------------------------------------------------- filter
p("L01", "Time filters pass exactly the messages inside the chosen window",
  "With lower and/or upper time bounds set, a message passes exactly when its week and time lie inside the inclusive window, or exactly outside it when the time filter is inverted.",
  ["inputs", "configurations"], "all bounds, all message times, every combination of set bounds and inversion", "Tests use a few times; week-boundary comparisons need specific pairs.", [FI, FIH], [("week and time comparison", FI)])
p("L02", "Identifier, name and time-status filters admit exactly the listed messages",
  "A message passes an identifier, name or time-status filter exactly when it matches a listed entry (with matching sibling and format, where any format may be listed), or exactly when it matches none when inverted; filters combine by conjunction.",
  ["inputs", "configurations"], "all message headers against lists of up to 2 arbitrary entries, inverted or not", "Tests use a few identifiers.", [FI, FIH], [("list membership tests", FI)])
p("L03", "Decimation passes exactly the messages on the chosen period",
  "With decimation set to a period, a message passes exactly when its time of week in milliseconds is a multiple of the period (or is not, when inverted); every accepted setting is safe to apply to every message.",
  ["inputs", "configurations"], "all periods and all times", "Tests use a few multiples.", [FI, FIH], [("remainder test", FI)])
p("L04", "Clearing or removing filters restores passing behaviour exactly",
  "After clearing filters every known message that needs no opt-in passes; removing one entry leaves the filter as if only the others had been added; unknown-format data never passes and NMEA passes only when enabled.",
  ["inputs", "histories"], "all message headers after add/remove/clear histories of up to 3 steps", "Histories are not sampled.", [FI, FIH], [("active filter-function list", FI)])
# ---------------------------------------------------------------- database
p("D01", "Database lookups reflect exactly the definitions added and removed",
  "After any history of adding, replacing, merging and removing message and enumeration definitions, looking up by name or identifier returns the latest definition added and not since removed, and nothing otherwise.",
  ["inputs", "histories"], "histories of up to 3 operations over arbitrary identifiers and a few names", "Stale index entries appear only after particular histories.", [DB, DBH], [("name and id indexes", DB)])
p("D02", "Message names and identifiers convert back and forth consistently",
  "Converting a message name with its format and sibling suffixes to an identifier and back gives the same name, and converting an identifier of a known message to a name and back gives the same identifier.",
  ["inputs"], "every identifier of each known message; names with every suffix", "Suffix letters that are also part of a base name need particular names.", [DB], [("suffix parsing and generation", DB)])
p("D03", "Field layout information is internally consistent",
  "For every definition the computed field layout gives each field a distinct, aligned, in-bounds slot of its declared type, so that a value stored through one field never changes another and every field is read back with its own type.",
  ["programs"], "every sequence of up to 4 fields over all field kinds, types and small array lengths", "Layouts in tests come from a few real definitions.", [DB, DBH, MDH], [("layout builder and field accessors", DBH)])
p("D04", "Copied and merged definitions are deep and equal",
  "Copying a definition or merging a database gives definitions equal to the source whose later modification does not affect the source.",
  ["histories"], "all definition shapes up to the bound and one modification", "Sharing bugs need a modification after the copy.", [DBH, DB], [("copy constructors and clone", DBH)])
p("D05", "Definition files load into exactly the definitions they describe",
  "Loading definitions from JSON text yields messages, fields and enumerations whose every attribute equals the text, and malformed definitions are rejected with an error rather than loaded partially.",
  ["inputs"], "definition documents over all field kinds with symbolic attribute values", "Tests load one small sample.", [JR, DB], [("field, enum and message readers", JR)])
# ---------------------------------------------------------------- range decompression
p("R01", "Bit-field extraction returns exactly the addressed bits",
  "Reading successive bit fields of any widths from a compressed record returns the same values as reading the record as one little-endian bit string, and fails rather than reads beyond the record's end.",
  ["inputs"], "every record content up to the bound and every sequence of widths up to 3", "Widths crossing byte boundaries combine in many ways.", [RD, RCH], [("bit cursor", RD)])
p("R02", "Malformed range-compressed messages cannot corrupt memory",
  "Decompressing any byte string, with any declared counts and sizes, either fails or yields a range log, and never reads outside the message or writes outside the output.",
  ["inputs"], "every message body of bounded length, for all five compressed forms", "Inconsistent counts are not among the sample logs.", [RD, RCH], [("count and size checks", RD)])
p("R03", "Scaled range fields decode to the documented values",
  "Each fixed-width compressed observation decodes to pseudorange, Doppler, carrier phase, deviations, lock time and C/N0 equal to the documented scaling of its raw bits, including sign extension of negative values.",
  ["inputs"], "every raw field value of the first compressed form and of reference and differential blocks", "Sign and limit cases are rare in logs.", [RD, RCH], [("masks, shifts, scale factors", RCH)])
p("R04", "Lock time never goes backwards while lock is continuous",
  "Extended lock time equals the reported value until the reported field saturates and then grows by the elapsed time between messages for that same signal only; where the field is a class of lock times, it is never more than the true lock time; it restarts when the field falls.",
  ["inputs", "histories"], "every pair of successive observations with arbitrary times and fields", "Saturation needs long recordings.", [RD], [("per-signal lock-time tracking", RD)])
p("R05", "Differential range blocks use the matching reference block only",
  "A differential block is decoded only against the reference block with the same identifier for that signal and antenna received since (or in) that antenna's last whole-second message, and is otherwise rejected; decoder reset forgets all references.",
  ["inputs", "histories"], "every reference/differential pair of identifiers and every intervening reset", "Needs lost or reordered messages.", [RD], [("reference block map", RD)])
p("R06", "Channel tracking status words round-trip losslessly",
  "Building a channel status from a status word and converting it back preserves every defined bit, and converting compressed observation headers gives the system, signal and PRN documented for them.",
  ["inputs"], "all 32-bit status words; all system/signal/PRN combinations", "Tests use real logs with a few systems.", [CTS, CTSH], [("bit masks and per-system signal maps", CTS)])
p("R07", "Tracking keys are distinct for distinct signals",
  "Two observations share stored tracking state exactly when they have the same satellite system, satellite, signal (and antenna).",
  ["inputs"], "all pairs of keys in range", "Collisions need specific satellite numbers.", [RCH, CTSH], [("key packing", RCH)])
# ---------------------------------------------------------------- rxconfig, parser, file parser, commander
p("X01", "RXCONFIG embeds and reproduces the original configuration log",
  "Decoding and re-encoding an RXCONFIG message in the same format reproduces its bytes, embedded header and inverted embedded checksum included, for every embedded payload.",
  ["inputs"], "every embedded field value for small embedded definitions; all checksum values", "Tests use five logs.", [RX], [("embedded header and body conversion", RX)])
p("X02", "Malformed RXCONFIG messages cannot corrupt memory",
  "Converting any RXCONFIG byte string of any length never reads outside the message nor writes outside the output buffer.",
  ["inputs"], "every body up to the bound and every output size", "Short and inconsistent lengths are not tested.", [RX], [("length arithmetic", RX)])
p("P01", "The parser accounts for every byte and applies its options faithfully",
  "Reading from the parser until it is empty yields each message that passes the filter, in order and re-encoded as requested, and with unknown bytes enabled returns all other bytes unchanged; filtered-out messages are dropped without affecting neighbours.",
  ["inputs", "configurations", "histories"], "every input up to the bound around valid frames, all option combinations", "Options combine; tests use few.", [PA], [("read loop over framer, decoder, filter, encoder", PA)])
p("P02", "The file parser feeds the whole stream to the parser in order",
  "Reading a file through the file parser yields the same results as giving the parser the file's bytes directly, whatever the stream's length, and reports the end of the stream only when all is consumed.",
  ["inputs", "histories"], "every stream length around the read-chunk size and short reads", "Tests use a few files.", [FPH], [("chunked stream reads", FPH)])
p("K01", "Commands convert to binary or text messages that decode to the same command",
  "An abbreviated ASCII command converts to a message with a valid checksum that decodes back to the same command identifier and parameters; bad commands and bad lengths are rejected without writing beyond the buffer.",
  ["inputs"], "commands with up to 3 parameters over the bound; every output size", "Tests convert a few commands.", [CO], [("command encode", CO)])
# ---------------------------------------------------------------- outside the technique
p("N01", "Python bindings expose the same results as the C++ library",
  "Every parse, decode and encode performed through the Python package gives the same bytes and field values as the C++ library on the same input.",
  ["inputs", "programs"], "every input stream", "The binding layer has its own conversions; tests sample a few logs.", ["python"], [("binding layer conversions", "python")])
p("N02", "Concurrent definition loading gives the same database as sequential loading",
  "Loading definition files uses background tasks; the resulting database is the same as when the parts are loaded one after another, under every schedule.",
  ["schedules"], "every interleaving of the loading tasks", "A test run sees one schedule.", [JR], [("asynchronous parsing of parts", JR)])
p("N03", "Logging configuration never alters decoding results",
  "Whatever logging level or sink is configured, decoding and encoding results are unchanged.",
  ["configurations"], "all logging configurations", "Tests use one logging configuration.", [I + "common/logger.hpp"], [("logger registration", I + "common/logger.hpp")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
