//! Prints a transcript of operations of dlhn: one line per case with a hash of everything that
//! was observed (bytes, values, verdicts, bytes consumed). Sections exist in every build whose
//! features offer their operations; the inputs depend on nothing but the seed, the section and the
//! case number, so transcripts of different builds can be compared line by line.
#![allow(dead_code, unused_imports, unused_macros)]
use dlhn::{Body, DeserializeHeader, Deserializer, Header, SerializeHeader, Serializer};
use refmodel::dynamic::*;
use refmodel::*;
use serde::de::{DeserializeOwned, DeserializeSeed};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::convert::TryInto;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// What one case observed.
struct Log(String);

impl Log {
    fn op<T: std::fmt::Debug>(&mut self, name: &str, f: impl FnOnce() -> T) -> Option<T> {
        let r = catch_unwind(AssertUnwindSafe(f));
        match r {
            Ok(v) => {
                let _ = writeln!(self.0, "{}: {:?}", name, v);
                Some(v)
            }
            Err(_) => {
                let _ = writeln!(self.0, "{}: PANIC", name);
                None
            }
        }
    }
}

/// Which error it is, or (between platforms) only that it is one: a count that does not fit the
/// word is refused before what follows it is looked at.
fn err<E: std::fmt::Debug>(e: E) -> String {
    if VERDICTS.load(std::sync::atomic::Ordering::Relaxed) {
        "refused".to_string()
    } else {
        format!("{:?}", e)
    }
}
static VERDICTS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

fn ser<T: Serialize + ?Sized>(t: &T) -> Result<String, String> {
    let mut w = Vec::new();
    t.serialize(&mut Serializer::new(&mut w)).map(|_| full(&w)).map_err(err)
}

fn raw<T: Serialize + ?Sized>(t: &T) -> Vec<u8> {
    let mut w = Vec::new();
    let _ = t.serialize(&mut Serializer::new(&mut w));
    w
}

fn full(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        let _ = write!(s, "{:02x}", x);
    }
    s
}

fn de<T: DeserializeOwned>(b: &[u8]) -> (Result<T, String>, usize) {
    let mut rd = b;
    let r = T::deserialize(&mut Deserializer::new(&mut rd)).map_err(err);
    let left = if r.is_ok() { rd.len() } else { 0 };
    (r, left)
}

fn show<T: DeserializeOwned + Serialize + std::fmt::Debug>(b: &[u8]) -> String {
    let (r, left) = de::<T>(b);
    match r {
        Ok(v) => format!("{:?} left {} again {:?}", v, left, ser(&v)),
        Err(e) => e,
    }
}

fn seed_de(s: &Shape, b: &[u8]) -> (Result<Val, String>, usize) {
    let mut rd = b;
    let r = Seed(s).deserialize(&mut Deserializer::new(&mut rd)).map_err(err);
    let left = if r.is_ok() { rd.len() } else { 0 };
    (r, left)
}

fn inputs(r: &mut Rng, s: &Shape) -> Vec<Vec<u8>> {
    let mut out = vec![];
    if inhabited(s) {
        let v = gen_val(r, s, &mut 200);
        out.push(encode(&v));
        let mut l = Vec::new();
        encode_loose(&v, r, &mut l);
        out.push(l);
    }
    for _ in 0..4 {
        out.push(gen_hostile(r, s, 300));
    }
    out
}

fn typed(r: &mut Rng, l: &mut Log) {
    let s = gen_inhabited(r, 3, ANY);
    let v = gen_val(r, &s, &mut 300);
    l.op("write", || ser(&Typed(&s, &v)));
    let s = gen_shape(r, 3, HOSTILE);
    for b in inputs(r, &s) {
        l.op("read", || seed_de(&s, &b));
    }
}

fn body(r: &mut Rng, l: &mut Log) {
    let s = gen_shape(r, 3, HOSTILE_HEADERABLE);
    let other = to_header(&gen_shape(r, 2, HOSTILE_HEADERABLE));
    let h = match to_header(&s) {
        Some(h) => h,
        None => return,
    };
    for b in inputs(r, &s) {
        let out = l.op("body", || {
            let mut rd = b.as_slice();
            let x = Body::deserialize(&h, &mut Deserializer::new(&mut rd)).map_err(err);
            let left = if x.is_ok() { rd.len() } else { 0 };
            (x, left)
        });
        if let Some((Ok(x), _)) = out {
            l.op("validate", || x.validate(&h));
            l.op("other", || other.as_ref().map(|o| x.validate(o)));
            l.op("again", || ser(&x));
        }
    }
}

fn headers(r: &mut Rng, l: &mut Log) {
    let h = gen_header(r, 4);
    let out = l.op("write", || {
        let mut w = Vec::new();
        h.serialize(&mut w).map(|_| w).map_err(|e| err(e.kind()))
    });
    let mut b = match out {
        Some(Ok(b)) => b,
        _ => vec![],
    };
    for _ in 0..6 {
        l.op("read", || {
            let mut rd = b.as_slice();
            let x = rd.deserialize_header().map_err(err);
            let left = if x.is_ok() { rd.len() } else { 0 };
            (x, left)
        });
        if b.is_empty() {
            b.push(r.u8())
        }
        let i = r.below(b.len());
        match r.below(4) {
            0 => b[i] = r.below(32) as u8,
            1 => b[i] = r.u8(),
            2 => b.truncate(i),
            _ => b.insert(i, *r.pick(&[0, 1, 21, 24, 0x80, 0xff, 0xfe])),
        }
    }
}

fn ints(r: &mut Rng, l: &mut Log) {
    for _ in 0..8 {
        let v = r.int(64);
        l.op("u16", || ser(&(v as u16)));
        l.op("u32", || ser(&(v as u32)));
        l.op("u64", || ser(&v));
        l.op("usize", || ser(&(v as u32 as usize)));
        l.op("i8", || ser(&(v as i8)));
        l.op("i16", || ser(&(v as i16)));
        l.op("i32", || ser(&(v as i32)));
        l.op("i64", || ser(&(v as i64)));
        l.op("f32", || ser(&f32::from_bits(v as u32)));
        l.op("f64", || ser(&f64::from_bits(v)));
        l.op("u128", || ser(&(v as u128)));
        let n = r.below(11);
        let mut b = r.bytes(n);
        if !b.is_empty() && r.bool() {
            b[0] = *r.pick(&[0x7f, 0x80, 0xbf, 0xc0, 0xdf, 0xe0, 0xf0, 0xf8, 0xfc, 0xfe, 0xff]);
        }
        l.op("u8", || de::<u8>(&b));
        l.op("u16", || de::<u16>(&b));
        l.op("u32", || de::<u32>(&b));
        l.op("u64", || de::<u64>(&b));
        l.op("i8", || de::<i8>(&b));
        l.op("i16", || de::<i16>(&b));
        l.op("i32", || de::<i32>(&b));
        l.op("i64", || de::<i64>(&b));
        l.op("bool", || de::<bool>(&b));
        l.op("char", || de::<char>(&b));
    }
}

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Plain {
    a: Option<Vec<u16>>,
    b: BTreeMap<String, i32>,
    c: Choice,
    d: (char, [u8; 4], Box<str>),
    e: Result<i64, ()>,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
enum Choice {
    A,
    B(u64),
    C(i8, String),
    D { x: bool, y: Vec<Choice> },
}

fn plain(r: &mut Rng, l: &mut Log) {
    let choice = |r: &mut Rng| match r.below(4) {
        0 => Choice::A,
        1 => Choice::B(r.int(64)),
        2 => Choice::C(r.u8() as i8, String::gen(r, &mut 40)),
        _ => Choice::D { x: r.bool(), y: vec![Choice::A, Choice::B(r.int(20))] },
    };
    let v = Plain {
        a: Model::gen(r, &mut 60),
        b: Model::gen(r, &mut 60),
        c: choice(r),
        d: (char::gen(r, &mut 9), [1, 2, 3, r.u8()], String::gen(r, &mut 30).into()),
        e: if r.bool() { Ok(r.int(64) as i64) } else { Err(()) },
    };
    l.op("write", || ser(&v));
    let mut b = raw(&v);
    l.op("read", || show::<Plain>(&b));
    for _ in 0..6 {
        if b.is_empty() {
            break;
        }
        let i = r.below(b.len());
        match r.below(4) {
            0 => b[i] = r.u8(),
            1 => b[i] ^= 1 << r.below(8),
            2 => b.truncate(i),
            _ => b.insert(i, *r.pick(&[0, 1, 0x7f, 0x80, 0xff])),
        }
        l.op("hostile", || show::<Plain>(&b));
    }
}

fn wrappers(r: &mut Rng, l: &mut Log) {
    for s in [Shape::BigUint, Shape::BigInt, Shape::BigDec, Shape::Date, Shape::DateTime] {
        for b in inputs(r, &s) {
            match s {
                Shape::BigUint => drop(l.op("BigUint", || show::<dlhn::BigUint>(&b))),
                Shape::BigInt => drop(l.op("BigInt", || show::<dlhn::BigInt>(&b))),
                Shape::BigDec => drop(l.op("BigDecimal", || show::<dlhn::BigDecimal>(&b))),
                Shape::Date => drop(l.op("Date", || show::<dlhn::Date>(&b))),
                _ => drop(l.op("DateTime", || show::<dlhn::DateTime>(&b))),
            }
        }
    }
}

fn refused(r: &mut Rng, l: &mut Log) {
    let n = r.int(32) as u32;
    let m: BTreeMap<u32, u8> = [(n, 1)].into_iter().collect();
    let c: BTreeMap<char, u8> = [('x', 1)].into_iter().collect();
    let o: BTreeMap<Option<String>, u8> = [(None, 1)].into_iter().collect();
    let ip: BTreeMap<std::net::Ipv4Addr, u8> = [(n.into(), 1)].into_iter().collect();
    l.op("u32 key", || ser(&m));
    l.op("char key", || ser(&c));
    l.op("option key", || ser(&o));
    l.op("ip key", || ser(&ip));
    l.op("u128", || ser(&(n as u128)));
    l.op("i128", || ser(&(n as i128)));
    l.op("nested", || ser(&vec![Some((n as i128, 1u8))]));
    let k = r.below(30);
    let b = r.bytes(k);
    l.op("read u128", || de::<u128>(&b));
    l.op("read i128", || de::<i128>(&b));
    l.op("ignored", || de::<serde::de::IgnoredAny>(&b).0.is_ok());
    l.op("key u32", || de::<BTreeMap<u32, u8>>(&b));
    l.op("key char", || de::<BTreeMap<char, u8>>(&b));
    l.op("key ip", || de::<BTreeMap<std::net::Ipv4Addr, u8>>(&b));
}

fn faults(r: &mut Rng, l: &mut Log) {
    let s = gen_inhabited(r, 2, ANY);
    let v = gen_val(r, &s, &mut 100);
    let n = encode(&v).len();
    let at = r.below(n + 2);
    let kind = *r.pick(&[std::io::ErrorKind::Other, std::io::ErrorKind::BrokenPipe, std::io::ErrorKind::WouldBlock]);
    let fault = if r.bool() { Fault::Kind(kind) } else { Fault::End };
    l.op("write", || {
        let mut w = MonWriter::with(Sched::One, Some((at, fault)));
        let o = Typed(&s, &v).serialize(&mut Serializer::new(&mut w)).map_err(err);
        (o, full(&w.out))
    });
    let b = encode(&v);
    l.op("read", || {
        let mut rd = MonReader::with(&b, Sched::One, Some((at, fault)));
        let o = Seed(&s).deserialize(&mut Deserializer::new(&mut rd)).map_err(err);
        let used = if o.is_ok() { rd.pos } else { 0 };
        (o, used)
    });
}

macro_rules! hdr {
    ($l:ident: $($t:ty),* $(,)?) => {$(
        $l.op(stringify!($t), || { let mut w = Vec::new(); <$t as SerializeHeader>::serialize_header(&mut w).map(|_| w).map_err(|e| err(e.kind())) });
    )*};
}

fn type_headers(_: &mut Rng, l: &mut Log) {
    hdr!(l: (), bool, u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, String, &'static str, serde_bytes::ByteBuf, serde_bytes::Bytes,
        dlhn::BigUint, dlhn::BigInt, dlhn::BigDecimal, dlhn::Date, dlhn::DateTime, Option<Vec<u8>>, Vec<Option<()>>,
        BTreeMap<String, Vec<i64>>, std::collections::HashMap<String, ()>, (u8,), (u8, (u16, u32)),
        (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, bool));
}

#[cfg(all(feature = "num-traits", feature = "num-bigint"))]
mod ints_big {
    use super::*;
    use num_bigint::{BigInt, BigUint};
    #[derive(Serialize, Deserialize, Debug)]
    struct FU(#[serde(with = "dlhn::format::big_uint")] BigUint);
    #[derive(Serialize, Deserialize, Debug)]
    struct FI(#[serde(with = "dlhn::format::big_int")] BigInt);

    pub fn run(r: &mut Rng, l: &mut Log) {
        let u = BigUint::from_bytes_le(&gen_big_bytes(r, false, 60));
        let i = BigInt::from_signed_bytes_le(&gen_big_bytes(r, true, 60));
        l.op("BigUint::from", || ser(&dlhn::BigUint::from(u.clone())));
        l.op("BigInt::from", || ser(&dlhn::BigInt::from(i.clone())));
        l.op("big_uint", || ser(&FU(u.clone())));
        l.op("big_int", || ser(&FI(i.clone())));
        l.op("back", || -> BigUint { dlhn::BigUint::from(u.clone()).into() });
        l.op("back", || -> BigInt { dlhn::BigInt::from(i.clone()).into() });
        for b in inputs(r, &Shape::BigUint) {
            l.op("read", || show::<FU>(&b));
            l.op("into", || de::<dlhn::BigUint>(&b).0.map(|x| -> BigUint { x.into() }));
        }
        for b in inputs(r, &Shape::BigInt) {
            l.op("read", || show::<FI>(&b));
            l.op("into", || de::<dlhn::BigInt>(&b).0.map(|x| -> BigInt { x.into() }));
        }
    }
    pub fn headers(_: &mut Rng, l: &mut Log) {
        hdr!(l: num_bigint::BigUint, num_bigint::BigInt, Vec<num_bigint::BigInt>);
    }
}

#[cfg(all(feature = "num-traits", feature = "bigdecimal"))]
mod decimals {
    use super::*;
    use bigdecimal::BigDecimal;

    pub fn number(r: &mut Rng) -> BigDecimal {
        let mut n = bigdecimal::num_bigint::BigInt::from_signed_bytes_le(&gen_big_bytes(r, true, 40));
        for _ in 0..r.below(4) {
            n *= 10
        }
        let scale = match r.below(4) {
            0 => gen_i(r, 64),
            1 => 0,
            _ => r.below(60) as i64 - 30,
        };
        BigDecimal::new(n, scale)
    }
    pub fn run(r: &mut Rng, l: &mut Log) {
        let d = number(r);
        l.op("BigDecimal::from", || ser(&dlhn::BigDecimal::from(d.clone())));
    }
    #[cfg(feature = "num-bigint")]
    #[derive(Serialize, Deserialize)]
    struct FD(#[serde(with = "dlhn::format::big_decimal")] BigDecimal);
    #[cfg(feature = "num-bigint")]
    pub fn all(r: &mut Rng, l: &mut Log) {
        let d = number(r);
        l.op("big_decimal", || ser(&FD(d.clone())));
        l.op("back", || { let x: BigDecimal = dlhn::BigDecimal::from(d.clone()).into(); x.into_bigint_and_exponent() });
        for b in inputs(r, &Shape::BigDec) {
            l.op("read", || { let (x, left) = de::<FD>(&b); (x.map(|x| x.0.into_bigint_and_exponent()), left) });
            l.op("into", || de::<dlhn::BigDecimal>(&b).0.map(|x| { let x: BigDecimal = x.into(); x.into_bigint_and_exponent() }));
        }
    }
}
#[cfg(feature = "bigdecimal")]
fn decimal_headers(_: &mut Rng, l: &mut Log) {
    hdr!(l: bigdecimal::BigDecimal, Option<bigdecimal::BigDecimal>);
}

#[cfg(feature = "time")]
mod dates {
    use super::*;
    #[derive(Serialize, Deserialize, Debug)]
    struct FDate(#[serde(with = "dlhn::format::date")] time::Date);
    #[derive(Serialize, Deserialize, Debug)]
    struct FTime(#[serde(with = "dlhn::format::date_time")] time::OffsetDateTime);

    pub fn run(r: &mut Rng, l: &mut Log) {
        let (lo, hi) = (time::Date::MIN.to_julian_day() as i64, time::Date::MAX.to_julian_day() as i64);
        let d = time::Date::from_julian_day((lo + r.below((hi - lo + 1) as usize) as i64) as i32).unwrap();
        let t = time::Time::from_hms_nano(r.below(24) as u8, r.below(60) as u8, r.below(60) as u8, r.below(1_000_000_000) as u32).unwrap();
        let off = time::UtcOffset::from_whole_seconds(r.range(0, 180000) as i32 - 90000).unwrap();
        let dt = d.with_time(t).assume_offset(off);
        l.op("Date::from", || ser(&dlhn::Date::from(d)));
        l.op("date", || ser(&FDate(d)));
        l.op("DateTime::from", || ser(&dlhn::DateTime::from(dt)));
        l.op("date_time", || ser(&FTime(dt)));
        for b in inputs(r, &Shape::Date) {
            l.op("read", || show::<FDate>(&b));
            l.op("into", || de::<dlhn::Date>(&b).0.map(|x| { let y: Result<time::Date, ()> = x.try_into(); y }));
        }
        for b in inputs(r, &Shape::DateTime) {
            l.op("read", || show::<FTime>(&b));
            l.op("into", || de::<dlhn::DateTime>(&b).0.map(|x| { let y: Result<time::OffsetDateTime, ()> = x.try_into().map_err(|_| ()); y }));
        }
    }
    pub fn headers(_: &mut Rng, l: &mut Log) {
        hdr!(l: time::Date, time::OffsetDateTime, Vec<time::Date>);
    }
}

#[cfg(feature = "dlhn_derive")]
mod derived {
    use super::*;
    #[derive(Serialize, Deserialize, SerializeHeader, Debug)]
    struct S {
        a: u8,
        #[serde(skip)]
        b: u16,
        c: Option<String>,
        d: E,
    }
    #[derive(Serialize, Deserialize, SerializeHeader, Debug)]
    enum E {
        A,
        B(#[serde(skip)] u8, i64),
        C { x: Vec<u8>, y: dlhn::BigInt },
    }
    #[derive(Serialize, Deserialize, SerializeHeader, Debug)]
    struct U;
    #[derive(Serialize, Deserialize, SerializeHeader, Debug)]
    struct N(E);
    pub fn headers(_: &mut Rng, l: &mut Log) {
        hdr!(l: S, E, U, N, Vec<S>, BTreeMap<String, N>);
    }
    pub fn run(r: &mut Rng, l: &mut Log) {
        let v = S { a: r.u8(), b: 7, c: Model::gen(r, &mut 30), d: if r.bool() { E::A } else { E::B(3, r.int(64) as i64) } };
        l.op("write", || ser(&v));
        let b = raw(&v);
        l.op("read", || show::<S>(&b));
        l.op("body", || {
            let mut w = Vec::new();
            S::serialize_header(&mut w).unwrap();
            let h = w.as_slice().deserialize_header().unwrap();
            let mut rd = b.as_slice();
            format!("{:?}", Body::deserialize(&h, &mut Deserializer::new(&mut rd)))
        });
    }
}

/// Every kind that starts with a length, claiming more than there is, with lengths that differ
/// from a small one only in bits past the 8th, 16th, 31st and 32nd, in every form of the integer.
fn claims(r: &mut Rng, l: &mut Log) {
    let k = *r.pick(&[8u32, 14, 16, 21, 31, 32, 32, 32, 33, 35, 40, 48, 56, 63]);
    let small = match r.below(8) {
        0 => 0,
        1 => r.range(128, 400) as u64,
        2 if r.below(20) == 0 => r.range(4090, 4200) as u64,
        _ => r.below(12) as u64,
    };
    let len = match r.below(4) {
        0 => (1u64 << k) - 1 - small.min(3),
        1 => u64::MAX - small,
        _ => (1u64 << k) + small,
    };
    let mut b = Vec::new();
    put_varint(&mut b, len, 64);
    // what would follow if the length were the small one, and sometimes more
    let n = small as usize * r.range(1, 3) + if r.bool() { 0 } else { r.below(20) };
    for _ in 0..n {
        b.push(r.below(3) as u8);
    }
    if len < 100_000 {
        return;
    }
    l.op("string", || show::<String>(&b));
    l.op("bytes", || show::<serde_bytes::ByteBuf>(&b));
    l.op("u8s", || show::<Vec<u8>>(&b));
    l.op("bools", || show::<Vec<bool>>(&b));
    l.op("strings", || show::<Vec<String>>(&b));
    l.op("pairs", || show::<Vec<(u8, i8)>>(&b));
    l.op("map", || show::<BTreeMap<String, u8>>(&b));
    l.op("BigUint", || show::<dlhn::BigUint>(&b));
    l.op("BigInt", || show::<dlhn::BigInt>(&b));
    l.op("BigDecimal", || show::<dlhn::BigDecimal>(&b));
    l.op("nested", || {
        let mut x = vec![1, 2];
        x.extend_from_slice(&b);
        show::<Option<Vec<String>>>(&x)
    });
    l.op("enum", || show::<Choice>(&b));
    for h in [Header::String, Header::Binary, Header::BigUInt, Header::BigInt, Header::BigDecimal, Header::Array(Box::new(Header::UInt8)),
        Header::Map(Box::new(Header::Boolean)), Header::Enum(vec![Header::UInt8; small.min(300) as usize + 1])] {
        l.op("body", || {
            let mut rd = b.as_slice();
            let x = Body::deserialize(&h, &mut Deserializer::new(&mut rd)).map_err(err);
            let left = if x.is_ok() { rd.len() } else { 0 };
            (x, left)
        });
    }
    for code in [21u8, 24] {
        l.op("header", || {
            let mut x = vec![code];
            x.extend_from_slice(&b);
            let mut rd = x.as_slice();
            rd.deserialize_header().map(|h| (h, rd.len())).map_err(|e| err(e.kind()))
        });
    }
}

type Section = (&'static str, u64, fn(&mut Rng, &mut Log));

fn sections() -> Vec<Section> {
    #[allow(unused_mut)]
    let mut v: Vec<Section> = vec![
        ("typed", 10, typed),
        ("body", 10, body),
        ("headers", 10, headers),
        ("ints", 10, ints),
        ("claims", 10, claims),
        ("plain", 10, plain),
        ("wrappers", 10, wrappers),
        ("refused", 3, refused),
        ("faults", 10, faults),
        ("type-headers", 0, type_headers),
    ];
    #[cfg(all(feature = "num-traits", feature = "num-bigint"))]
    v.extend([("big-integers", 10, ints_big::run as fn(&mut Rng, &mut Log)), ("big-integer-headers", 0, ints_big::headers)]);
    #[cfg(all(feature = "num-traits", feature = "bigdecimal"))]
    v.push(("decimals-from", 10, decimals::run));
    #[cfg(all(feature = "num-traits", feature = "num-bigint", feature = "bigdecimal"))]
    v.push(("decimals", 10, decimals::all));
    #[cfg(feature = "bigdecimal")]
    v.push(("decimal-headers", 0, decimal_headers));
    #[cfg(feature = "time")]
    v.extend([("dates", 10, dates::run as fn(&mut Rng, &mut Log)), ("date-headers", 0, dates::headers)]);
    #[cfg(feature = "dlhn_derive")]
    v.extend([("derived", 10, derived::run as fn(&mut Rng, &mut Log)), ("derived-headers", 0, derived::headers)]);
    v
}

fn main() {
    // deep shapes are bounded, but debug frames are large
    std::thread::Builder::new().stack_size(256 << 20).spawn(real_main).unwrap().join().unwrap();
}

fn real_main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[1].parse().unwrap();
    let scale: u64 = a[2].parse().unwrap();
    let one: Option<(String, u64)> = a.get(3).map(|s| (s.clone(), a[4].parse().unwrap()));
    VERDICTS.store(std::env::var("CFGPROBE_VERDICTS").is_ok(), std::sync::atomic::Ordering::Relaxed);
    std::panic::set_hook(Box::new(|_| {}));
    // "k/n": every n-th case only, from the k-th
    let part: (u64, u64) = match std::env::var("CFGPROBE_PART") {
        Ok(p) => p.split_once('/').map(|(k, n)| (k.parse().unwrap(), n.parse().unwrap())).unwrap(),
        Err(_) => (0, 1),
    };
    let mut number = 0;
    let mut out = String::new();
    let all = sections();
    let most = all.iter().map(|(_, w, _)| (w * scale).max(1)).max().unwrap();
    // in turn, so that a run which is stopped early has been everywhere
    for i in 0..most {
        for (name, weight, f) in &all {
            if i >= (weight * scale).max(1) {
                continue;
            }
            if let Some((s, k)) = &one {
                if s != name || *k != i {
                    continue;
                }
            }
            number += 1;
            if number % part.1 != part.0 {
                continue;
            }
            let mut r = Rng::new(mix(mix(seed, hash_bytes(name.as_bytes())), i));
            let mut l = Log(String::new());
            if catch_unwind(AssertUnwindSafe(|| f(&mut r, &mut l))).is_err() {
                l.0.push_str("case PANIC\n");
            }
            let line = format!("{} {} {:016x} {}", name, i, hash_bytes(l.0.as_bytes()), l.0.lines().count());
            if one.is_some() {
                print!("{}", l.0);
            } else if part.1 > 1 {
                println!("{}", line);
            } else {
                out.push_str(&line);
                out.push('\n');
            }
        }
    }
    print!("{}", out);
    println!("END");
}
