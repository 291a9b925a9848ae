//! Operations of the code under test, each behind a guard.
use crate::mon::*;
use dlhn::{Body, Deserializer, Header, Serializer};
use refmodel::*;
use serde::de::DeserializeSeed;
use serde::Serialize;

pub type SerErr = dlhn::ser::Error;
pub type DeErr = dlhn::de::Error;

pub const CAP: usize = 3 << 30;

pub fn val_budget(r: &mut Rng) -> usize {
    match r.below(40) {
        0 => 150_000,
        1..=4 => 20_000,
        5..=12 => 3_000,
        _ => 250,
    }
}

pub fn model_err(e: &str) -> bool {
    e.starts_with("model: ")
}

pub fn ser<T: Serialize + ?Sized>(t: &T) -> R<Result<Vec<u8>, SerErr>> {
    let r = guard("serialize", || {
        let mut out = Vec::new();
        t.serialize(&mut Serializer::new(&mut out)).map(|_| out)
    })?;
    if let Err(SerErr::Message(m)) = &r {
        if model_err(m) {
            return Err(Broken::Harness(m.clone()));
        }
    }
    Ok(r)
}

/// Serializes content that the format can hold: must succeed.
pub fn ser_val(s: &Shape, v: &Val) -> R<Vec<u8>> {
    match ser(&Typed(s, v))? {
        Ok(b) => Ok(b),
        Err(e) => Err(Broken::Vio(format!("serialize of {} as {} fails: {:?}", v.brief(), s.brief(), e))),
    }
}

pub fn de_shape(s: &Shape, rd: &mut MonReader) -> R<(Result<Val, DeErr>, usize)> {
    let (r, peak) = guard_mem("deserialize", CAP, || Seed(s).deserialize(&mut Deserializer::new(rd)))?;
    Ok((r, peak))
}

pub fn de_body(h: &Header, rd: &mut MonReader) -> R<(Result<Body, DeErr>, usize)> {
    guard_mem("Body::deserialize", CAP, || Body::deserialize(h, &mut Deserializer::new(rd)))
}

pub fn ser_header(h: &Header) -> R<std::io::Result<Vec<u8>>> {
    guard("Header::serialize", || {
        let mut out = Vec::new();
        h.serialize(&mut out).map(|_| out)
    })
}

pub fn de_header(rd: &mut MonReader) -> R<(std::io::Result<Header>, usize)> {
    use dlhn::DeserializeHeader;
    guard_mem("deserialize_header", CAP, || rd.deserialize_header())
}

pub fn validate(b: &Body, h: &Header) -> R<bool> {
    guard("Body::validate", || b.validate(h))
}

/// What decoding may hold in memory, given what it was supplied: generous constants, but linear.
/// A decoder may reserve a bounded amount per nesting level on the strength of a claimed length.
pub fn mem_budget(bytes: usize, nodes: usize, depth: usize) -> usize {
    (1 << 20) * (1 + depth) + 1024 * nodes + 512 * (bytes + 1) * (1 + nodes)
}

pub fn diff(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).position(|(a, b)| a != b).unwrap_or(a.len().min(b.len()));
    let lo = i.saturating_sub(4);
    format!(
        "{} vs {} bytes, first difference at {}: {} vs {}",
        a.len(),
        b.len(),
        i,
        hex(&a[lo.min(a.len())..(i + 16).min(a.len())]),
        hex(&b[lo.min(b.len())..(i + 16).min(b.len())])
    )
}

/// Compares an observed typed outcome with the reference decoder's.
pub fn agree(
    what: &str,
    s: &Shape,
    bytes: &[u8],
    got: &Result<Val, DeErr>,
    consumed: usize,
    want: &Result<Decoded, Fail>,
) -> R {
    match (got, want) {
        (_, Err(Fail::Skip)) => Ok(()),
        (Err(DeErr::Message(m)), _) if model_err(m) => Err(Broken::Harness(m.clone())),
        (Err(_), Err(_)) => Ok(()),
        (Err(_), Ok(d)) if d.open => Ok(()),
        (Err(e), Ok(d)) => Err(Broken::Vio(format!(
            "{}: valid encoding {} of {} ({}) is refused: {:?}",
            what,
            hex(bytes),
            d.val.brief(),
            s.brief(),
            e
        ))),
        (Ok(v), Err(f)) => Err(Broken::Vio(format!(
            "{}: {} is no encoding of a {} ({:?}) but decodes to {}",
            what,
            hex(bytes),
            s.brief(),
            f,
            v.brief()
        ))),
        (Ok(v), Ok(d)) => {
            if *v != d.val {
                return Err(Broken::Vio(format!(
                    "{}: {} decodes as {} to {} instead of {}",
                    what,
                    hex(bytes),
                    s.brief(),
                    v.brief(),
                    d.val.brief()
                )));
            }
            if consumed != d.used {
                return Err(Broken::Vio(format!(
                    "{}: {} bytes consumed instead of {} for {} in {}",
                    what,
                    consumed,
                    d.used,
                    s.brief(),
                    hex(bytes)
                )));
            }
            Ok(())
        }
    }
}

pub fn shape_hash(s: &Shape, b: &[u8]) -> u64 {
    mix(hash_bytes(format!("{:?}", s).as_bytes()), hash_bytes(b))
}

pub fn sched(r: &mut Rng) -> Sched {
    match r.below(8) {
        0 => Sched::One,
        6 => Sched::Storm { rng: Rng::new(r.u64()), max: 60, burst: 300 },
        1 => Sched::Random { rng: Rng::new(r.u64()), max: 2, intr: 40 },
        2 => Sched::Random { rng: Rng::new(r.u64()), max: 5000, intr: 10 },
        3 => Sched::Random { rng: Rng::new(r.u64()), max: 3, intr: 0 },
        _ => Sched::Random { rng: Rng::new(r.u64()), max: 40, intr: 25 },
    }
}

/// On a stack that deep nesting does not exhaust: only the work is judged.
pub fn on_big_stack(f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|sc| {
        let t = std::thread::Builder::new().stack_size(2 << 30).spawn_scoped(sc, f);
        match t.map(|t| t.join()) {
            Ok(Ok(r)) => r,
            Ok(Err(_)) => Err(Broken::Harness("the thread for deep nesting panicked".into())),
            Err(e) => Err(Broken::Harness(format!("no thread for deep nesting: {}", e))),
        }
    })
}

/// How deep `deep` goes: past the limits that nesting is given elsewhere.
pub const DEEP: &[usize] = &[63, 64, 65, 100, 126, 127, 128, 129, 200, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 2049, 3000];

/// A value nested this deep, in one kind of thing or in all of them; it has a header.
pub fn deep(r: &mut Rng, depth: usize) -> (Shape, Val) {
    let k = r.below(14);
    let mut s = gen_leaf(r, HEADERABLE);
    let mut v = gen_val(r, &s, &mut 20);
    for _ in 0..depth {
        (s, v) = match if k >= 12 { r.below(12) } else { k } {
            0 => (Shape::Opt(Box::new(s)), Val::Some(Box::new(v))),
            1 => (Shape::Newtype(Box::new(s)), v),
            2 => (Shape::Seq(Box::new(s)), Val::Seq(vec![v])),
            3 => (Shape::Map(Box::new(s)), Val::Map(vec![("k".into(), v)])),
            4 => (Shape::Tuple(vec![s, Shape::Bool]), Val::Tuple(vec![v, Val::Bool(r.bool())])),
            5 => (Shape::Tuple(vec![Shape::U16, s]), Val::Tuple(vec![Val::U16(r.u32() as u16), v])),
            6 => (Shape::TupleStruct(vec![Shape::U8, s]), Val::Tuple(vec![Val::U8(r.u8()), v])),
            7 => (Shape::Struct(vec![s, Shape::U8]), Val::Tuple(vec![v, Val::U8(r.u8())])),
            8 => (Shape::Enum(vec![(0, Variant::Unit), (1, Variant::Newtype(s))]), Val::Enum(1, Box::new(v))),
            9 => (Shape::Enum(vec![(0, Variant::Tuple(vec![s, Shape::U8]))]), Val::Enum(0, Box::new(Val::Tuple(vec![v, Val::U8(r.u8())])))),
            10 => (Shape::Enum(vec![(0, Variant::Struct(vec![Shape::I16, s])), (1, Variant::Unit)]), Val::Enum(0, Box::new(Val::Tuple(vec![Val::I16(-3), v])))),
            _ => (Shape::Opt(Box::new(Shape::Seq(Box::new(s)))), Val::Some(Box::new(Val::Seq(vec![v])))),
        };
    }
    (s, v)
}
