//! C23: memory safety. The oracle is the sanitizer this program is built with (see tools/c23.py);
//! here are the workloads, and a look at every value that comes out: text is UTF-8, chars are
//! characters, bools are 0 or 1. What the operations return matters to other properties only.
use super::cost::{some_op, KINDS};
use super::headers::damage;
use super::history;
use super::util::*;
use crate::corpus;
use crate::mon::*;
use crate::ensure;
use dlhn::{Body, Deserializer, Header, Serializer};
use refmodel::*;
use serde::de::DeserializeSeed;
use serde::{Deserialize, Serialize};
use std::convert::TryInto;
use std::hint::black_box;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Runs an operation that may end in any way that is defined.
fn any<T>(f: impl FnOnce() -> T) -> Option<T> {
    let r = catch_unwind(AssertUnwindSafe(f));
    let _ = take_panic();
    r.ok()
}

fn text(s: &str) -> R {
    let b = black_box(s.as_bytes());
    ensure!(std::str::from_utf8(black_box(b)).is_ok(), "a string holds {}, which is no UTF-8", hex(b));
    Ok(())
}

fn character(c: char) -> R {
    let n = black_box(c as u32);
    ensure!(n < 0xd800 || (0xe000..0x110000).contains(&n), "a char holds {:#x}", n);
    Ok(())
}

fn boolean(b: bool) -> R {
    let n: u8 = black_box(unsafe { std::mem::transmute_copy::<bool, u8>(black_box(&b)) });
    ensure!(n < 2, "a bool holds {}", n);
    Ok(())
}

fn val(v: &Val) -> R {
    match v {
        Val::Str(s) => text(s),
        Val::Char(c) => character(*c),
        Val::Bool(b) => boolean(*b),
        Val::Some(v) | Val::Enum(_, v) => val(v),
        Val::Seq(v) | Val::Tuple(v) => v.iter().try_for_each(val),
        Val::Map(v) => v.iter().try_for_each(|(k, v)| text(k).and_then(|_| val(v))),
        Val::Bytes(b) | Val::BigUint(b) | Val::BigInt(b) | Val::BigDec(b, _) => touch(b),
        Val::U16(x) => number(*x as u64),
        Val::U32(x) | Val::F32(x) => number(*x as u64),
        Val::U64(x) | Val::F64(x) => number(*x),
        Val::I16(x) => number(*x as u64),
        Val::I32(x) => number(*x as u64),
        Val::I64(x) => number(*x as u64),
        Val::U8(x) => number(*x as u64),
        Val::I8(x) => number(*x as u64),
        Val::Date(a, b) => number(*a as u64 ^ *b as u64),
        Val::DateTime(a, b) => number(*a as u64 ^ *b as u64),
        Val::Unit | Val::None => Ok(()),
    }
}

/// Decides something by every bit: a decision by memory that was never written is reported.
fn number(x: u64) -> R {
    if x.count_ones() % 2 == 1 {
        black_box(x);
    }
    Ok(())
}

fn touch(b: &[u8]) -> R {
    number(b.iter().fold(b.len() as u64, |a, x| a.wrapping_mul(31).wrapping_add(*x as u64)))
}

fn body(b: &Body) -> R {
    match b {
        Body::String(s) => text(s),
        Body::Boolean(b) => boolean(*b),
        Body::Binary(b) => touch(b),
        Body::Array(v) | Body::Tuple(v) => v.iter().try_for_each(body),
        Body::Map(m) => m.iter().try_for_each(|(k, v)| text(k).and_then(|_| body(v))),
        Body::Enum(n, v) => number(*n as u64).and_then(|_| body(v)),
        Body::Optional(Some(v)) => body(v),
        other => {
            black_box(format!("{:?}", other));
            Ok(())
        }
    }
}

/// An iterator and a serialized collection that say they are longer or shorter than they are.
struct Lying(usize, usize);
impl Serialize for Lying {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::*;
        let (said, is) = (self.0, self.1);
        match is % 6 {
            0 => {
                let mut q = s.serialize_seq(Some(said))?;
                (0..is).try_for_each(|i| q.serialize_element(&(i as u8, "x")))?;
                q.end()
            }
            1 => {
                let mut q = s.serialize_map(Some(said))?;
                (0..is).try_for_each(|i| q.serialize_entry(&i.to_string(), &Some(i)))?;
                q.end()
            }
            2 => {
                let mut q = s.serialize_tuple(said)?;
                (0..is).try_for_each(|i| q.serialize_element(&i))?;
                q.end()
            }
            3 => {
                let mut q = s.serialize_struct("S", said)?;
                (0..is).try_for_each(|i| q.serialize_field("f", &i))?;
                q.end()
            }
            4 => {
                let mut q = s.serialize_tuple_variant("E", said as u32, "V", said)?;
                (0..is).try_for_each(|i| q.serialize_field(&i.to_string()))?;
                q.end()
            }
            _ => {
                // keys and values out of step
                let mut q = s.serialize_map(Some(said))?;
                for i in 0..is {
                    match i % 3 {
                        0 => q.serialize_value(&i)?,
                        _ => q.serialize_key(&"k".repeat(i))?,
                    }
                }
                q.end()
            }
        }
    }
}

/// Asks for something else than what it was given as, over and over.
struct Greedy<'a>(&'a Shape, usize);
impl<'de, 'a> DeserializeSeed<'de> for Greedy<'a> {
    type Value = Vec<Val>;
    fn deserialize<D: serde::Deserializer<'de>>(self, d: D) -> Result<Vec<Val>, D::Error> {
        struct V<'a>(&'a Shape, usize);
        impl<'de, 'a> serde::de::Visitor<'de> for V<'a> {
            type Value = Vec<Val>;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("anything")
            }
            fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<Vec<Val>, A::Error> {
                let mut v = Vec::with_capacity(a.size_hint().unwrap_or(0).min(100));
                for _ in 0..self.1 {
                    match a.next_element_seed(Seed(self.0)) {
                        Ok(Some(x)) => v.push(x),
                        Ok(None) | Err(_) => {}
                    }
                }
                Ok(v)
            }
            fn visit_map<A: serde::de::MapAccess<'de>>(self, mut a: A) -> Result<Vec<Val>, A::Error> {
                let mut v = Vec::with_capacity(a.size_hint().unwrap_or(0).min(100));
                for i in 0..self.1 {
                    match (self.1 + i) % 3 {
                        0 => v.extend(a.next_key::<String>().ok().flatten().map(Val::Str)),
                        _ => v.extend(a.next_value_seed(Seed(self.0)).ok()),
                    }
                }
                Ok(v)
            }
        }
        let v = V(self.0, self.1);
        match self.1 % 4 {
            0 => d.deserialize_seq(v),
            1 => d.deserialize_map(v),
            2 => d.deserialize_tuple(self.1 * 2, v),
            _ => d.deserialize_struct("S", &["a", "b", "c"], v),
        }
    }
}

fn liar<'a>(r: &mut Rng, b: &'a [u8]) -> MonReader<'a> {
    let mut rd = MonReader::new(b);
    rd.lies = Some(Rng::new(r.u64()));
    rd
}

fn lying_writer(r: &mut Rng) -> MonWriter {
    let mut w = MonWriter::new();
    w.lies = Some(Rng::new(r.u64()));
    w
}

fn lies(c: &mut Case, es: &[corpus::Entry]) -> R {
    let r = &mut c.rng;
    let s = gen_inhabited(r, 3, ANY);
    let mut budget = if r.pct(10) { 5_000 } else { 200 };
    let v = gen_val(r, &s, &mut budget);
    let mut b = encode(&v);
    if r.pct(30) {
        b = gen_hostile(r, &s, 300);
    }
    let zero = s.has_zero_width_elements();
    let mut dishonest = 0;
    let h = dynamic::to_header(&s);
    for _ in 0..4 {
        if !zero {
            let mut rd = liar(r, &b);
            if let Some(Ok(v)) = any(|| Seed(&s).deserialize(&mut Deserializer::new(&mut rd))) {
                val(&v)?;
            }
            dishonest += rd.stats.faults;
            if let Some(h) = &h {
                let mut rd = liar(r, &b);
                if let Some(Ok(x)) = any(|| Body::deserialize(h, &mut Deserializer::new(&mut rd))) {
                    body(&x)?;
                }
                dishonest += rd.stats.faults;
            }
        }
        if let Some(h) = &h {
            let hb = encode_header(h).unwrap();
            let mut rd = liar(r, &hb);
            use dlhn::DeserializeHeader;
            if let Some(Ok(h)) = any(|| rd.deserialize_header()) {
                black_box(format!("{:?}", h));
            }
            dishonest += rd.stats.faults;
            let mut w = lying_writer(r);
            any(|| h.serialize(&mut w).is_ok());
            dishonest += w.stats.faults;
            if let Ok(x) = dynamic::to_body(&s, &v) {
                let mut w = lying_writer(r);
                any(|| x.serialize(&mut Serializer::new(&mut w)).is_ok());
                dishonest += w.stats.faults;
            }
        }
        let mut w = lying_writer(r);
        any(|| Typed(&s, &v).serialize(&mut Serializer::new(&mut w)).is_ok());
        dishonest += w.stats.faults;
        let e = r.pick(es);
        if !(e.shape)().has_zero_width_elements() {
            let (_, x) = match e.gen_ser(r, 60) {
                Ok((v, Ok(x))) => (v, x),
                _ => continue,
            };
            let mut rd = liar(r, &x);
            if let Ok((Ok(v), _)) = (e.de)(&mut rd) {
                val(&v)?;
            }
            dishonest += rd.stats.faults;
        }
        if let Some(f) = e.header_to {
            let _ = f(&mut lying_writer(r));
        }
        let _ = take_panic();
    }
    let (said, is) = (r.below(12), r.below(12));
    let mut w = MonWriter::new();
    any(|| Lying(if said == 11 { usize::MAX } else { said }, is).serialize(&mut Serializer::new(&mut w)).is_ok());
    touch(&w.out)?;
    if !zero {
        let n = r.below(12);
        let mut rd = MonReader::new(&b);
        if let Some(Ok(v)) = any(|| Greedy(&s, n).deserialize(&mut Deserializer::new(&mut rd))) {
            v.iter().try_for_each(val)?;
        }
    }
    c.count("dishonest_transfers", dishonest);
    c.evals(20);
    c.seen(shape_hash(&s, &b));
    Ok(())
}

/// Values that do not go with the header, in small and large ways.
fn mismatched(c: &mut Case) -> R {
    let r = &mut c.rng;
    let mut made: Vec<(Header, Body)> = vec![];
    while made.len() < 6 {
        let s = gen_inhabited(r, 3, HEADERABLE);
        if let Some(h) = dynamic::to_header(&s) {
            let s = dynamic::header_shape(&h);
            let mut b = 60;
            let v = gen_val(r, &s, &mut b).normalize_maps();
            if let Ok(b) = dynamic::to_body(&s, &v) {
                made.push((h, b));
            }
        }
    }
    let odd = |r: &mut Rng, b: &Body| -> Body {
        let n = *r.pick(&[0u32, 1, 2, 3, 7, 255, 256, 65_535, 65_536, 1 << 31, u32::MAX]);
        match r.below(5) {
            0 => Body::Enum(n, Box::new(b.clone())),
            1 => Body::Tuple(vec![b.clone(); (n % 9) as usize]),
            2 => Body::Array(vec![b.clone(), Body::Unit]),
            3 => Body::Optional(Some(Box::new(b.clone()))),
            _ => b.clone(),
        }
    };
    for _ in 0..12 {
        let b = &r.pick(&made).1.clone();
        let b = odd(r, b);
        let mut h = r.pick(&made).0.clone();
        if r.bool() {
            h = match r.below(4) {
                0 => Header::Enum(vec![h; r.below(4)]),
                1 => Header::Tuple(vec![h; r.below(4)]),
                2 => Header::Optional(Box::new(h)),
                _ => Header::Array(Box::new(h)),
            };
        }
        any(|| black_box(b.validate(&h)));
        let mut w = Vec::new();
        any(|| b.serialize(&mut Serializer::new(&mut w)).is_ok());
        touch(&w)?;
        let s = dynamic::header_shape(&h);
        if !s.has_zero_width_elements() {
            let mut rd = w.as_slice();
            if let Some(Ok(x)) = any(|| Body::deserialize(&h, &mut Deserializer::new(&mut rd))) {
                body(&x)?;
                any(|| black_box(x.validate(&h)));
            }
        }
        let mut hb = encode_header(&h).unwrap_or_default();
        damage(r, &mut hb);
        use dlhn::DeserializeHeader;
        if let Some(Ok(h)) = any(|| hb.as_slice().deserialize_header()) {
            black_box(format!("{:?}", h));
        }
    }
    c.evals(60);
    let n = c.rng.u64();
    c.seen(n);
    Ok(())
}

/// Raw bytes for the types that convert to others.
fn conversions(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = *r.pick(&[0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 40]);
    let mut b = vec![];
    put_varint(&mut b, n as u64, 64);
    b.extend((0..n).map(|_| *Rng::new(r.u64()).pick(&[0u8, 0xff, 0x80, 0x7f, 1])));
    b.extend((0..12).map(|_| if r.bool() { 0xff } else { r.u8() }));
    any(|| {
        if let Ok(x) = dlhn::BigUint::deserialize(&mut Deserializer::new(&mut b.as_slice())) {
            black_box(format!("{:?}", Into::<num_bigint::BigUint>::into(x)));
        }
    });
    any(|| {
        if let Ok(x) = dlhn::BigInt::deserialize(&mut Deserializer::new(&mut b.as_slice())) {
            black_box(format!("{:?}", Into::<num_bigint::BigInt>::into(x)));
        }
    });
    any(|| {
        if let Ok(x) = dlhn::BigDecimal::deserialize(&mut Deserializer::new(&mut b.as_slice())) {
            black_box(format!("{:?}", Into::<bigdecimal::BigDecimal>::into(x).as_bigint_and_exponent()));
        }
    });
    let k = r.below(b.len());
    any(|| {
        if let Ok(x) = dlhn::Date::deserialize(&mut Deserializer::new(&mut &b[k..])) {
            let t: Result<time::Date, ()> = x.try_into();
            black_box(format!("{:?}", t));
        }
    });
    any(|| {
        if let Ok(x) = dlhn::DateTime::deserialize(&mut Deserializer::new(&mut &b[k..])) {
            let t: Result<time::OffsetDateTime, ()> = x.try_into();
            black_box(format!("{:?}", t));
        }
    });
    macro_rules! leaf {
        ($($t:ty),*) => {$(
            if let Some(Ok(x)) = any(|| <$t>::deserialize(&mut Deserializer::new(&mut &b[k..]))) {
                black_box(format!("{:?}", x));
                let mut w = Vec::new();
                any(|| x.serialize(&mut Serializer::new(&mut w)).is_ok());
                touch(&w)?;
            }
        )*};
    }
    leaf!(bool, char, u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, String, Option<u16>, (u8, char), serde_bytes::ByteBuf);
    c.evals(40);
    c.seen_bytes(&b);
    Ok(())
}

/// Lengths around those of buffers.
fn lengths(c: &mut Case) -> R {
    let at = [0usize, 1, 7, 8, 31, 32, 63, 64, 127, 128, 129, 255, 256, 1023, 1024, 4095, 4096, 8192, 16383, 16384, 65535, 65536, 100_000];
    let r = &mut c.rng;
    let n = (*r.pick(&at) + r.below(5)).saturating_sub(r.below(3));
    let fill = gen_string(r, 3);
    let mut s = "x".repeat(n);
    s.push_str(&fill);
    let v = match r.below(4) {
        0 => (Shape::Str, Val::Str(s)),
        1 => (Shape::Bytes, Val::Bytes(s.into_bytes())),
        2 => (Shape::BigUint, Val::BigUint(s.into_bytes())),
        _ => (Shape::Map(Box::new(Shape::U8)), Val::Map(vec![(s, Val::U8(3))])),
    };
    let mut b = encode(&v.1);
    match r.below(6) {
        0 => b.truncate(r.below(b.len() + 1)),
        1 => {
            let i = r.below(b.len());
            b[i] = 0x80 | r.u8()
        }
        2 => b[0] = b[0].wrapping_add(1),
        _ => {}
    }
    let mut rd = match r.below(3) {
        0 => MonReader::new(&b),
        1 => MonReader::with(&b, sched(r), None),
        _ => liar(r, &b),
    };
    if let Some(Ok(v)) = any(|| Seed(&v.0).deserialize(&mut Deserializer::new(&mut rd))) {
        val(&v)?;
    }
    let mut w = MonWriter::new();
    any(|| Typed(&v.0, &v.1).serialize(&mut Serializer::new(&mut w)).is_ok());
    touch(&w.out)?;
    c.evals(2);
    c.max("longest", n as u64);
    c.seen(mix(n as u64, hash_bytes(&b)));
    Ok(())
}

/// Only what this monitor is for: how an operation ends is judged by other properties.
fn only_harness(r: R) -> R {
    match r {
        Err(Broken::Harness(m)) if !m.contains("panic") => Err(Broken::Harness(m)),
        _ => Ok(()),
    }
}

pub fn c23(run: &Run) {
    let es = corpus::entries();
    run.section("mixed", KINDS.len() as u64 * run.n(60, 2_000), |c| {
        let k = KINDS[c.idx as usize % KINDS.len()];
        let mut r = c.rng.clone();
        let h = c.rng.u64();
        c.seen(h);
        for _ in 0..25 {
            only_harness(some_op(k, &mut r, &es))?;
        }
        c.count(k, 25);
        c.evals(25);
        Ok(())
    });
    run.section("lies", run.n(2_000, 60_000), |c| lies(c, &es));
    run.section("mismatched", run.n(1_500, 40_000), mismatched);
    run.section("conversions", run.n(3_000, 100_000), conversions);
    run.section("lengths", run.n(2_000, 60_000), lengths);
    run.section("histories", run.n(60, 2_000), |c| only_harness(history::history(c)));
    history::threads(run, "threads", run.n(6, 200), only_harness);
    if run.cfg.replay.is_none() && es.is_empty() {
        run.harness_error("no types".into());
    }
}
