#!/usr/bin/env python3
"""Writes ../properties.jsonl (kept as a script so the lines stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)
SER="dlhn/src/ser.rs"; DE="dlhn/src/de.rs"; PV="dlhn/src/prefix_varint.rs"; ZZ="dlhn/src/zigzag.rs"
BODY="dlhn/src/body/mod.rs"; HS="dlhn/src/header/ser.rs"; HD="dlhn/src/header/de.rs"; HM="dlhn/src/header/mod.rs"
DRV="dlhn_derive/src/lib.rs"; DPV="dlhn_derive/src/prefix_varint.rs"
FMT=["dlhn/src/format/"+x for x in ("big_int.rs","big_uint.rs","big_decimal.rs","date.rs","date_time.rs")]
WR=["dlhn/src/"+x for x in ("big_int.rs","big_uint.rs","big_decimal.rs","date.rs","date_time.rs")]

p("C01","Every supported value survives a typed round trip",
  "For every Rust value made of the supported data types (booleans, integers up to 64 bits, floats, chars, strings, bytes, options, sequences, tuples, string-keyed maps, structs, enums, big numbers, dates), serializing it and deserializing the bytes as the same type gives back an equal value, floats bit for bit. Deserialization consumes exactly the bytes that serialization wrote, whatever follows them in the reader.",
  ["inputs","programs"],"all types built from the supported serde data model and all values of them",
  "The tests round-trip a handful of literal values of small types; lengths, nesting, integer widths, enum indexes and multi-byte text interact in unboundedly many ways, and size-dependent paths (127/128, 4096, 2^14, 2^21 ...) are sampled at one point or not at all.",
  [SER,DE,PV,ZZ],[("serde Serializer/Deserializer pair","ser.rs / de.rs"),("prefix varint and zigzag","prefix_varint.rs, zigzag.rs")],
  ["dlhn::Serializer::new + Serialize","dlhn::Deserializer::new + Deserialize"])
p("C02","Serialized bytes follow the DLHN wire format exactly",
  "For every supported value the serialized body is byte for byte the one the DLHN format prescribes: integers of more than 8 bits as prefix varints in the smallest form (signed ones zigzagged first), floats little endian, strings, bytes, sequences and maps preceded by their length, options by one tag byte, enums by their variant index, structs and tuples without framing. The same value always yields the same bytes.",
  ["inputs","programs"],"all types and values of the supported data model",
  "Round-trip tests cannot see a change made to both sides, and byte-level tests pin a few literals; stored data and other DLHN implementations depend on every length class and every combination.",
  [SER,PV,ZZ]+WR,[("Serializer methods","ser.rs"),("encode_prefix_varint","prefix_varint.rs"),("encode_zigzag","zigzag.rs")],
  ["bytes written to the io::Write given to dlhn::Serializer::new"])
p("C03","Integer coding is exact over the whole domain",
  "Every u8..u64 and i8..i64 value encodes to its unique smallest prefix-varint form (zigzagged when signed) and decodes back to itself, consuming exactly those bytes. A longer, non-minimal varint form of a value decodes to that same value, and a truncated one is an error.",
  ["inputs"],"all 2^16 16-bit values, all 2^32 32-bit values, all 64-bit values, all encoded forms of them",
  "The unit tests check class boundaries only; a wrong shift or mask can corrupt interior values of one length class, and domains of 2^32 and 2^64 are not enumerated; non-minimal forms are not tested.",
  [PV,ZZ,SER,DE],[("encode/decode_prefix_varint","prefix_varint.rs"),("encode/decode_zigzag","zigzag.rs")],
  ["integers serialized/deserialized through dlhn::Serializer / dlhn::Deserializer"])
p("C04","Untrusted body bytes never crash, hang or exhaust memory",
  "Deserializing any byte sequence, as any supported type or under any header, returns a value or an error: it never panics, overflows, aborts or loops without end. The memory used is proportional to the bytes actually supplied, not to the lengths they claim.",
  ["inputs","programs"],"all byte strings (truncated, mutated, length-inflated, random) x all target types and headers",
  "Tests feed valid encodings and a few short inputs; hostile lengths, invalid tags, invalid UTF-8, extreme dates and scales, and their nesting are not sampled, and no test measures memory.",
  [DE,BODY]+WR+FMT,[("bounded reads and chunked buffers","de.rs deserialize_string / deserialize_byte_buf"),("Body::deserialize","body/mod.rs"),("checked date arithmetic","date.rs, format/date*.rs")],
  ["results of Deserialize and Body::deserialize; panics; bytes allocated; reads issued"])
p("C05","Headers encode and decode exactly, for any header and any bytes",
  "Serializing any header and decoding it gives back the same header and consumes exactly its bytes, using the fixed code of each kind and an element count for tuples and enums. Decoding any other byte sequence (unknown or reserved code, truncation, inflated count) returns an error without panicking, hanging or allocating for elements that were never supplied, and a header too large for the format is refused when written.",
  ["inputs"],"all header trees and all byte strings",
  "Tests cover each code once with shallow nesting; counts across the varint length classes, deep mixes, truncation at each byte and the 230 invalid codes are not explored.",
  [HS,HD,HM],[("Header::serialize","header/ser.rs"),("deserialize_header","header/de.rs"),("codes","header/mod.rs")],
  ["Header::serialize output","DeserializeHeader result and bytes consumed"])
p("C06","The header of a type describes the bytes its values produce",
  "For every built-in or derived type, the header it reports, once decoded, is a true description of its body: every serialized value of the type decodes under that header, consumes exactly the same bytes, validates, has the same content, and serializes back to the same bytes.",
  ["programs","inputs"],"all types implementing SerializeHeader (built in or derived) x all their values",
  "Tests compare the header bytes of a few types and never decode a value under the header its type reports; field counts over 127, many variants, skipped fields and nested generics are out of their reach.",
  [HS,DRV,DPV,BODY,HD],[("SerializeHeader impls","header/ser.rs"),("derive","dlhn_derive/src/lib.rs"),("Body::deserialize / validate","body/mod.rs")],
  ["T::serialize_header + T::serialize vs deserialize_header + Body::deserialize"])
p("C07","Dynamic bodies round trip, and validate means conforms",
  "A dynamic body validates against a header exactly when its structure conforms to it, at every depth. Whenever it validates, serializing it and decoding under that header gives back an equal body and consumes exactly its bytes; everything decoded under a header validates against that header.",
  ["inputs"],"all (header, body) pairs, conforming and non-conforming",
  "Tests check one matching and a few mismatching pairs per kind; a mismatch deep in one element, a count off by one, an enum index at the edge or a wrong-width integer at depth is not sampled.",
  [BODY],[("Body::validate","body/mod.rs"),("Body::deserialize","body/mod.rs"),("impl Serialize for Body","body/mod.rs")],
  ["Body::validate verdicts","Body serialize/deserialize results"])
p("C08","Typed and header-driven decoding agree on every input",
  "For any byte sequence, valid or not, decoding it as a type and decoding it as a dynamic body under that type's header give the same verdict: both fail, or both succeed with the same content after the same number of bytes. Encoding the same content from either side gives the same bytes.",
  ["inputs","programs"],"all byte strings x all types that have a header",
  "The two decoders are separate code with separate tests; no test compares them on the same bytes, least of all on malformed ones.",
  [BODY,DE,SER]+WR,[("serde path","de.rs"),("Body path","body/mod.rs")],
  ["pair of outcomes (value, bytes consumed) on one input"])
p("C09","Values in a stream keep their boundaries",
  "A stream of any number of headers and values written one after another, through one serializer or several, is the concatenation of their individual encodings. Reading it back value by value, through one deserializer or several, yields each value in order, with the reader positioned exactly after it, and at the end of the stream an error rather than an invented value.",
  ["histories","inputs"],"all sequences of headers and values, split over serializer/deserializer instances in any way",
  "The stream tests write the same small struct twice; buffering, read-ahead or a state left in the serializer shows only in longer mixed histories and under instance switches.",
  [SER,DE,HS,HD],[("unbuffered Serializer","ser.rs"),("reader borrowed by Deserializer","de.rs")],
  ["bytes in the shared writer/reader after each operation"])
p("C10","I/O failures are always reported, never absorbed",
  "If the writer fails at any byte, serialization of a body or header reports an error and the bytes written so far are a prefix of the correct encoding. If the reader fails or ends at any byte before the end of a value, deserialization reports an error and never a value; no strict prefix of an encoding that needs more bytes is ever accepted.",
  ["fault_sequences","inputs"],"a fault of any kind at every byte position of every encoding",
  "Tests use in-memory vectors, which never fail, and truncate a few encodings at one point; a swallowed error in one code path shows only when the fault falls on that very byte.",
  [SER,DE,HS,HD,BODY],[("write_all(..).or(Err(Write))","ser.rs"),("read_exact(..).or(Err(Read))","de.rs"),("? on io::Result","header/*.rs")],
  ["result and bytes transferred under an injected fault"])
p("C11","The decoder accepts exactly the valid encodings",
  "Deserialization succeeds on a byte sequence if and only if a prefix of it is an encoding, minimal or not, of a value of the target type, and then it yields that value. Booleans and option tags other than 0 and 1, text that is not UTF-8, empty chars, unknown enum variants, impossible dates and missing bytes are errors, never a default or a neighbouring value.",
  ["inputs","programs"],"all byte strings x all types of the supported data model",
  "Negative tests are few and hand-picked; the set of invalid encodings is infinite and each validation is a separate branch.",
  [DE,BODY]+FMT,[("tag and UTF-8 checks","de.rs"),("variant lookup","de.rs, body/mod.rs")],
  ["result of Deserialize against an independent reference decoder"])
p("C12","Big numbers keep their value in every representation",
  "Any big unsigned integer, big integer or big decimal, whether written through the wrapper type or the field-level format module, is written as the same canonical bytes (little endian, minimal two's complement when signed, decimal stripped of trailing zeros, zero in one byte) and reads back through either as the same number. Numbers equal in value produce equal bytes, the cost is independent of the magnitude of a decimal's scale, and any received bytes of these types convert without panicking.",
  ["inputs"],"all integers and decimals of any size and scale; all encodings",
  "Tests use zero and a few small constants; sign-bit boundaries of each byte length, trailing zeros, negative and extreme scales, and cross-reading between wrapper and format module are not covered.",
  [WR[0],WR[1],WR[2],FMT[0],FMT[1],FMT[2]],[("From/Into conversions","big_int.rs, big_uint.rs, big_decimal.rs"),("serialize/deserialize with-modules","format/big_*.rs")],
  ["bytes and values through dlhn::{BigInt,BigUint,BigDecimal} and dlhn::format::{big_int,big_uint,big_decimal}"])
p("C13","Dates and timestamps keep their instant, and bad ones are refused",
  "Every date, and every date-time with any UTC offset whose UTC year is in the supported range, written through the wrapper type or the field-level format module, is written as the same bytes and reads back through either as the same day or the same instant to the nanosecond. Bytes that name no representable day or instant are refused when converted or decoded, without panic or overflow.",
  ["inputs"],"all calendar days, all instants with nanosecond and offset, all encodings of year/ordinal/timestamp/nanosecond",
  "Tests use a couple of dates after 2000; negative years, years around the offset, leap-day ordinals, instants before 1970 and range edges are not covered.",
  [WR[3],WR[4],FMT[3],FMT[4]],[("year/ordinal offsets","date.rs, format/date.rs"),("timestamp + nanosecond","date_time.rs, format/date_time.rs")],
  ["bytes and values through dlhn::{Date,DateTime} and dlhn::format::{date,date_time}"])
p("C14","What the format cannot represent is refused, never mis-encoded",
  "A value or request outside the format (a map key that is not a string, a 128-bit integer, a sequence or map of unknown length, a field conditionally left out of a struct, decoding without knowing the type) gives an error on serialization or deserialization, at any depth. It is never written as bytes that decode as something else and never panics.",
  ["inputs","programs"],"all serde programs that use an unsupported feature, alone or nested at any depth",
  "Tests check some key types at top level only; every unsupported serde method is a separate branch and may be reached at any depth.",
  [SER,DE],[("MapKeySerializer","ser.rs"),("unsupported deserialize_* methods","de.rs")],
  ["result of serialize/deserialize"])
p("C15","Operations do not depend on history or on other threads",
  "Every encode, decode, validate or header operation gives the same result whatever operations ran before it in the process: after errors, after panics in user code, nested inside another serialization, on a reused serializer or deserializer, after any number of operations. Threads working concurrently never affect each other's results.",
  ["histories","schedules"],"all sequences of operations, including failed and nested ones, and all interleavings of threads",
  "Each test runs one operation in a fresh state; leaked state (a shared buffer, a depth counter not reset on the error path, a cache) shows only after particular histories or under concurrency.",
  [SER,DE,BODY,HS,HD],[("no global or shared state; Serializer/Deserializer hold only the stream","ser.rs, de.rs")],
  ["results of operations in long, mixed, multi-threaded histories against the history-free reference"])
p("C16","Feature and profile choices never change bytes or verdicts",
  "For every combination of the crate's optional features, and for debug and release builds, the crate compiles and the operations available in both give identical bytes, values and verdicts on identical inputs.",
  ["configurations","inputs"],"all 32 feature combinations x debug/release",
  "The tests run in one configuration (all features, debug); arithmetic that wraps in release and panics in debug, or code behind a feature gate, is not compared.",
  ["dlhn/Cargo.toml","dlhn/src/lib.rs"]+WR+["dlhn/src/format/mod.rs",HS],[("feature gates","lib.rs, format/mod.rs, big_*.rs, date*.rs, header/ser.rs")],
  ["transcripts of one deterministic workload per configuration"])
p("C17","The header derive honours field attributes or refuses to compile",
  "For every struct or enum it accepts, the derived header lists exactly the fields and variants that the derived body writes, in that order, taking skip attributes into account on fields and enum-variant fields, with any number of fields or variants. Types whose body layout it cannot describe (conditionally skipped fields, unions) do not compile rather than get a wrong header.",
  ["programs"],"all derivable type definitions: shapes, field counts, attributes and attribute placement",
  "Four tests cover a few definitions; the derive is a compiler pass whose input space is programs: attribute forms, combinations, counts beyond 127 and 16383, enum variants of each kind.",
  [DRV,DPV],[("is_skip_field / has_skip_serializing_if","dlhn_derive/src/lib.rs"),("field and variant counts","dlhn_derive/src/lib.rs, prefix_varint.rs")],
  ["generated programs: header bytes vs model vs serde body; compile failures"])
p("C18","Results do not depend on how the bytes are delivered",
  "Splitting the same bytes into reads or writes of any sizes, including one byte at a time, with interrupted calls in between, changes nothing: the same value or verdict results, the same bytes are consumed and the same bytes are written.",
  ["schedules","inputs"],"all partitions of a byte stream into reads/writes, with interruptions",
  "The tests use slices and vectors, which always deliver everything at once; a read() where read_exact is needed shows only with short reads at that place.",
  [SER,DE,HS,HD,PV],[("read_exact / write_all / take().read_to_string","de.rs, ser.rs, header/*.rs, prefix_varint.rs")],
  ["outcome under a scripted reader/writer vs outcome on the whole slice"])
p("C19","Operations give back what they take",
  "However an encode, decode, validate, header or conversion operation ends (success, refusal, I/O failure, malformed input, error or panic in user code), it gives back everything it took: the memory held after any number of operations whose results have been dropped stays bounded, and no file or thread stays behind.",
  ["histories","inputs"],"all histories of operations with dropped results, successful, failing and panicking ones",
  "No test measures memory, and a leak on one error path (a leaked name, a forgotten buffer, a cache without bound) does not change any result; it shows only as growth over thousands of operations that take that path.",
  [SER,DE,BODY,HS,HD]+WR+FMT,[("results own their content; no caches, no statics","de.rs, body/mod.rs, header/*.rs")],
  ["bytes held by the thread, open files and threads of the process, before and after thousands of operations"])
p("C20","Work grows in proportion to the data",
  "The time, the memory asked for and the number of transfers an encode, decode, validate, header or conversion operation needs grow in proportion to the size of the data (conversions of big decimals, which normalize in decimal, excepted), for every kind of content, wide or deep, in one piece or byte by byte, and also when the input ends before the value is complete. Large data never makes an operation disproportionately slower.",
  ["inputs"],"all kinds of content at growing sizes, complete or cut short, under any delivery",
  "Tests use values of a few bytes, on which quadratic work (copying what was read so far, checking a subtree once per level, searching variants linearly) cannot be seen.",
  [SER,DE,BODY,HS,HD,WR[0],WR[1],FMT[0],FMT[1]],[("chunked reads into one buffer","de.rs"),("one pass over the body","body/mod.rs"),("from_le_bytes / to_le_bytes","big_*.rs")],
  ["CPU time, allocated bytes and reader/writer calls of one operation, at two sizes"])
p("C21","Errors of user code come back unchanged and end the operation",
  "When a Serialize, Deserialize or Visitor implementation fails with an error of its own at any point of a value (before or after any nested value, map key, variant index), the operation fails with that error, its text unchanged, wherever in the value it was raised. No further user code is called, nothing more is written or read, and values written or read before and after it on the same serializer or deserializer are not affected.",
  ["inputs","programs","histories"],"all types, values, positions of the failing step, forms and texts of the error",
  "The tests have no failing user implementation at all; an error mapped, dropped or retried in one of the many access methods shows only when user code fails in exactly that position.",
  [SER,DE],[("? on the results of nested serialize/deserialize calls","ser.rs, de.rs"),("Error::custom","ser.rs, de.rs")],
  ["the error returned, the calls into user code and the bytes transferred after the failing step"])
p("C22","Bytes and verdicts do not depend on the platform",
  "On machines of 32-bit as of 64-bit word size and of either byte order, identical inputs give identical bytes, values and verdicts: what one platform writes every other reads as the same value, and what one refuses all refuse (except a value too large for the memory of the platform). In particular a received count or length that does not fit the machine's word is refused and never cut.",
  ["configurations","inputs"],"32- and 64-bit, little- and big-endian targets x all inputs",
  "The tests run on one machine; counts cast to usize, native byte order and word-sized arithmetic look right there.",
  [SER,DE,"dlhn/src/prefix_varint.rs","dlhn/src/zigzag.rs","dlhn/src/big_uint.rs","dlhn/src/big_int.rs","dlhn/src/body/mod.rs","dlhn/src/header/de.rs"],[("casts between u64 and usize","de.rs, body/mod.rs"),("to_le_bytes / from_le_bytes","prefix_varint.rs, de.rs, ser.rs, big_*.rs")],
  ["transcripts of one deterministic workload per platform"])
p("C23","No operation is undefined",
  "Whatever the input, however readers, writers and user code behave (even when they break their promises: claim to have transferred more than they were given, or what they have not touched), and however threads interleave, no operation reads or writes memory that is not its own, uses memory never written or already given back, races on shared data, or makes an invalid value (text that is not UTF-8, a char that is no character, a bool other than 0 or 1). At worst such an operation fails or panics.",
  ["inputs","fault_sequences","schedules"],"All inputs x dishonest readers, writers and user code x thread interleavings",
  "The tests use honest readers and writers on one thread; undefined behaviour most often gives the right answer there.",
  [SER,DE,"dlhn/src/lib.rs","dlhn/src/body/mod.rs","dlhn/src/header/de.rs","dlhn/src/prefix_varint.rs"],[("#![forbid(unsafe_code)]","lib.rs of dlhn and dlhn_derive"),("buffers handed to readers","de.rs, big_*.rs, prefix_varint.rs")],
  ["reports of AddressSanitizer, MemorySanitizer, ThreadSanitizer and Miri; validity of what comes out"])
p("C24","Values compare by what they hold",
  "Equality of the crate's value types is equality of what they hold, however they came about (built, cloned, read back or decoded from other bytes): headers are equal exactly when they describe the same type, dynamic bodies exactly when they hold the same kind and content (floating point by IEEE equality), big numbers in the form the crate writes exactly when they are the same number (decimals: of the same digits and scale; different numbers are never equal), dates and moments exactly when they are the same instant. Where the type has an order it is total, consistent with equality and hash, so that sets, maps, sorting and deduplication work, and dates and moments sort chronologically.",
  ["inputs"],"All pairs and triples of values, above all pairs that differ in one thing only",
  "The tests compare a few equal values; a comparison that overlooks a difference makes every assert_eq! pass.",
  ["dlhn/src/header/mod.rs","dlhn/src/body/mod.rs","dlhn/src/big_int.rs","dlhn/src/big_uint.rs","dlhn/src/big_decimal.rs","dlhn/src/date.rs","dlhn/src/date_time.rs"],[("derived PartialEq, Eq, Ord, Hash, Clone","Header, Body, BigInt, BigUint, BigDecimal, Date, DateTime")],
  ["results of ==, !=, cmp, hash, clone, sort, dedup, HashSet, BTreeSet"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
