use crate::mon::Run;

pub mod util;

mod big;
mod body;
mod cost;
mod dates;
mod faults;
mod headers;
mod history;
mod hostile;
mod ints;
mod laws;
mod refuse;
mod safety;
mod typed;
mod user;
mod vast;

pub struct Meta {
    pub prop: &'static str,
    pub run: fn(&Run),
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

const SAFETY: Meta =
    Meta { prop: "C23", run: safety::c23, level: "sanitizer",
        rule: "A case is an operation on random content, much of it through readers and writers that lie about what they did or user code that breaks its promises; what comes out holds only valid values; distinct by (operation, content).",
        assumptions: &[] };

/// With sanitizers, where building is expensive, the monitors of C23 alone.
#[cfg(only_safety)]
pub const ALL: &[Meta] = &[SAFETY];

#[cfg(not(only_safety))]
pub const ALL: &[Meta] = &[
    Meta { prop: "C01", run: typed::c01, level: "exploration",
        rule: "A case is a random type (run-time serde program or real derived type) and a random value of it, serialized and read back by the real code; distinct by (type, bytes). Trivial types without bytes count once.",
        assumptions: &["run-time types drive the same serde methods in the same order as derived code"] },
    Meta { prop: "C02", run: typed::c02, level: "exploration",
        rule: "A case is a random (type, value); the bytes written are compared with an independent reference encoder's; distinct by (type, bytes).",
        assumptions: &["the reference encoder in refmodel/src/wire.rs states the format"] },
    Meta { prop: "C03", run: ints::c03, level: "exploration",
        rule: "Every value of 8- and 16-bit types, a full sweep (thorough) or a coprime-stride sweep (quick) of 32-bit types, dense windows around every power of two and random values of every bit length for 64-bit ones; each value's bytes and decoded value are compared with the reference; distinct counts a sample of (type, value).",
        assumptions: &[] },
    Meta { prop: "C04", run: hostile::c04, level: "exploration",
        rule: "A case is a type or header and hostile bytes for it (mutated, truncated, length-inflated, structured noise); the monitors watch panics (overflow checks on), reads at the end of input, CPU time and peak memory; distinct by (type, bytes).",
        assumptions: &["memory budget is linear in the bytes supplied, with the constants of util::mem_budget"] },
    Meta { prop: "C05", run: headers::c05, level: "exploration",
        rule: "A case is a random header tree (codes, counts across varint classes) or hostile header bytes; outcome, consumption and memory are compared with the reference header codec; distinct by bytes.",
        assumptions: &[] },
    Meta { prop: "C06", run: headers::c06, level: "exploration",
        rule: "A case is a value of a built-in or derived type decoded under the header its type reports; distinct by (type, bytes).",
        assumptions: &[] },
    Meta { prop: "C07", run: body::c07, level: "exploration",
        rule: "A case is a (header, body) pair, conforming or with one or more structural mutations at random depth; verdicts are compared with the model's conformity, conforming bodies are round-tripped; distinct by (header, body).",
        assumptions: &[] },
    Meta { prop: "C08", run: body::c08, level: "exploration",
        rule: "A case is a type with a header and bytes (valid, loose, hostile) decoded by both decoders; distinct by (type, bytes).",
        assumptions: &["arrays of zero-width elements are fed only valid encodings (known finding of C04)"] },
    Meta { prop: "C09", run: history::c09, level: "exploration",
        rule: "A case is a random sequence of headers and values written and read through randomly switched serializers and deserializers; distinct by stream bytes.",
        assumptions: &[] },
    Meta { prop: "C10", run: faults::c10, level: "fault_enumeration",
        rule: "For each generated encoding, a fault is injected at every byte position (all positions up to 600 bytes, a sample beyond) on the write and on the read side, with several fault kinds; distinct by (encoding, position).",
        assumptions: &[] },
    Meta { prop: "C11", run: typed::c11, level: "exploration",
        rule: "A case is a type and a byte string (valid, non-minimal, hostile); the verdict and value are compared with the reference decoder's; distinct by (type, bytes).",
        assumptions: &["bits the format leaves open in a full-length varint prefix, and chars given as longer strings, may be refused or accepted with the reference's value"] },
    Meta { prop: "C12", run: big::c12, level: "exploration",
        rule: "A case is a big number (all byte-length and sign-bit boundaries, trailing zeros, extreme scales) written and read through wrapper and format module; distinct by (kind, bytes).",
        assumptions: &["num-bigint and bigdecimal arithmetic is trusted as the meaning of a number"] },
    Meta { prop: "C13", run: dates::c13, level: "exploration",
        rule: "Every calendar day of the supported range (thorough) or a sweep of it (quick), instants over the range with offsets, and raw year/ordinal/timestamp/nanosecond encodings around every limit; distinct by (kind, bytes).",
        assumptions: &["the time crate's calendar is trusted"] },
    Meta { prop: "C14", run: refuse::c14, level: "exploration",
        rule: "A case is an unsupported request (method x nesting path); the outcome must be an error; distinct by (request, path).",
        assumptions: &[] },
    Meta { prop: "C15", run: history::c15, level: "exploration",
        rule: "A case is a history of mixed operations (valid, failing, panicking, nested, interleaved) on one thread, several running concurrently; each result is compared with the history-free reference; distinct by history.",
        assumptions: &[] },
    Meta { prop: "C18", run: faults::c18, level: "exploration",
        rule: "A case is bytes for a type or header delivered under a scripted schedule of short and interrupted transfers; outcome and consumption are compared with whole delivery; distinct by (bytes, schedule).",
        assumptions: &[] },
    Meta { prop: "C19", run: cost::c19, level: "exploration",
        rule: "A case is a kind of operation (successful, failing, refused, panicking), repeated some thousand times with fresh random content; after two windows for warming up, the bytes the thread holds are compared over four more; at the end also the process's open files and threads; distinct by case.",
        assumptions: &["something that fills up during the first third of a case and then stays is no leak"] },
    Meta { prop: "C20", run: cost::c20, level: "exploration",
        rule: "A case is a kind of content in two sizes, 64 KB and 16 (thorough: 64) times that; each operation's transfers and memory asked for are compared exactly, its CPU time with wide margins, the least of up to four; distinct by (kind, content).",
        assumptions: &["superlinear work shows at sizes up to 1 MB (thorough: 4 MB)"] },
    Meta { prop: "C21", run: user::c21, level: "fault_enumeration",
        rule: "A case is a type and content or bytes for it; user code fails at a chosen step (before or after any nested value, key or variant index) with an error of some form and text; the error that comes back, the steps and the transfers after it are observed; distinct by (type, bytes).",
        assumptions: &["the text of an error is what its Display gives, and of serde's predefined forms what serde itself makes of them"] },
    SAFETY,
    Meta { prop: "C24", run: laws::c24, level: "exploration",
        rule: "A case is a group of values that are equal, differ in one place or are far apart; every pair and triple is compared with what the contents say; distinct by content.",
        assumptions: &["comparison in num-bigint and time is trusted"] },
];

pub fn meta(prop: &str) -> &'static Meta {
    ALL.iter().find(|m| m.prop == prop).unwrap()
}

#[cfg(only_safety)]
pub fn probe(_: &[String]) -> i32 {
    2
}

#[cfg(not(only_safety))]
pub fn probe(args: &[String]) -> i32 {
    match args.first().map(|s| s.as_str()) {
        Some("deep-header") => hostile::probe_deep_header(),
        Some("zero-width") => hostile::probe_zero_width(),
        Some("deep-typed") => hostile::probe_deep_typed(),
        _ => 2,
    }
}
