//! C19 nothing is kept, C20 work grows linearly.
use super::headers::damage;
use super::util::*;
use crate::corpus;
use crate::mon::*;
use crate::{ensure, vio};
use dlhn::{Body, Deserializer, Header, Serializer};
use refmodel::*;
use serde::de::DeserializeSeed;
use serde::{Deserialize, Serialize};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Duration;

// ---- C19 -----------------------------------------------------------------------------------

struct Unknown(bool);
impl Serialize for Unknown {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::*;
        if self.0 {
            s.serialize_seq(None)?.end()
        } else {
            s.serialize_map(None)?.end()
        }
    }
}

struct Boom<'a>(&'a Shape, &'a Val);
impl<'a> Serialize for Boom<'a> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::*;
        let mut q = s.serialize_seq(Some(3))?;
        q.serialize_element(&Typed(self.0, self.1))?;
        std::panic::panic_any(7u8)
    }
}

struct BoomSeed<'a>(&'a Shape);
impl<'de, 'a> DeserializeSeed<'de> for BoomSeed<'a> {
    type Value = ();
    fn deserialize<D: serde::Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        struct V<'a>(&'a Shape);
        impl<'de, 'a> serde::de::Visitor<'de> for V<'a> {
            type Value = ();
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("a bomb")
            }
            fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
                let _ = a.next_element_seed(Seed(self.0))?;
                std::panic::panic_any(7u8)
            }
        }
        d.deserialize_seq(V(self.0))
    }
}

pub const KINDS: &[&str] = &[
    "write", "read", "read-hostile", "body", "body-hostile", "header", "header-damaged", "write-fault", "read-fault", "user-errors",
    "user-panics", "refused", "numbers", "dates", "real-types", "real-types-hostile",
];

fn typed(r: &mut Rng) -> (Shape, Val) {
    let s = gen_inhabited(r, 3, ANY);
    let mut b = if r.pct(3) { 6_000 } else { 60 };
    let v = gen_val(r, &s, &mut b);
    (s, v)
}

pub fn some_op(k: &str, r: &mut Rng, es: &[corpus::Entry]) -> R {
    match k {
        "write" => {
            let (s, v) = typed(r);
            let mut w = MonWriter::with(sched(r), None);
            guard(k, || Typed(&s, &v).serialize(&mut Serializer::new(&mut w)).is_ok())?;
        }
        "read" => {
            let (s, v) = typed(r);
            let b = encode(&v);
            let _ = de_shape(&s, &mut MonReader::with(&b, sched(r), None))?;
        }
        "read-hostile" => {
            let s = gen_shape(r, 3, HOSTILE);
            if !s.has_zero_width_elements() {
                let b = gen_hostile(r, &s, 300);
                let _ = de_shape(&s, &mut MonReader::new(&b))?;
            }
        }
        "body" => {
            let (s, v) = typed(r);
            if let Some(h) = dynamic::to_header(&s) {
                let b = encode(&v);
                if let (Ok(x), _) = de_body(&h, &mut MonReader::new(&b))? {
                    validate(&x, &h)?;
                    validate(&x, &leaf_header(r))?;
                    let mut w = MonWriter::new();
                    guard(k, || x.serialize(&mut Serializer::new(&mut w)).is_ok())?;
                }
            }
        }
        "body-hostile" => {
            let h = gen_header(r, 3);
            let s = dynamic::header_shape(&h);
            if !s.has_zero_width_elements() {
                let b = gen_hostile(r, &s, 300);
                let _ = de_body(&h, &mut MonReader::new(&b))?;
            }
        }
        "header" | "header-damaged" => {
            let h = gen_header(r, 4);
            let mut b = encode_header(&h).unwrap_or_default();
            let _ = ser_header(&h)?;
            if k != "header" {
                damage(r, &mut b);
                if r.bool() {
                    b.truncate(r.below(b.len() + 1));
                }
            }
            let _ = de_header(&mut MonReader::new(&b))?;
        }
        "write-fault" => {
            let (s, v) = typed(r);
            let n = encode(&v).len();
            let f = Fault::Kind(std::io::ErrorKind::Other);
            let mut w = MonWriter::with(Sched::Whole, Some((r.below(n + 1), f)));
            guard(k, || Typed(&s, &v).serialize(&mut Serializer::new(&mut w)).is_ok())?;
            if let Some(h) = dynamic::to_header(&s) {
                let mut w = MonWriter::with(Sched::Whole, Some((r.below(8), f)));
                guard(k, || h.serialize(&mut w).is_ok())?;
                let x = guard(k, || dynamic::to_body(&s, &v))??;
                let mut w = MonWriter::with(Sched::Whole, Some((r.below(n + 1), f)));
                guard(k, || x.serialize(&mut Serializer::new(&mut w)).is_ok())?;
            }
        }
        "read-fault" => {
            let (s, v) = typed(r);
            let b = encode(&v);
            let p = r.below(b.len() + 1);
            let f = if r.bool() { Fault::End } else { Fault::Kind(std::io::ErrorKind::Other) };
            let _ = de_shape(&s, &mut MonReader::with(&b, Sched::Whole, Some((p, f))))?;
            if let Some(h) = dynamic::to_header(&s) {
                let _ = de_body(&h, &mut MonReader::with(&b, Sched::Whole, Some((p, f))))?;
                let hb = encode_header(&h).unwrap_or_default();
                let p = r.below(hb.len() + 1);
                let _ = de_header(&mut MonReader::with(&hb, Sched::Whole, Some((p, f))))?;
            }
        }
        "user-errors" => {
            let (s, v) = typed(r);
            let b = encode(&v);
            fuse::arm(r.below(20) as u64, r.below(fuse::FORMS as usize) as u8, "refused by the user");
            let x = guard(k, || Typed(&s, &v).serialize(&mut Serializer::new(&mut MonWriter::new())).is_ok());
            fuse::arm(r.below(20) as u64, r.below(fuse::FORMS as usize) as u8, "refused by the user");
            let y = de_shape(&s, &mut MonReader::new(&b));
            fuse::disarm();
            x?;
            let _ = y?;
        }
        "user-panics" => {
            let (s, v) = typed(r);
            let b = encode(&Val::Seq(vec![v.clone(), v.clone()]));
            let mut w = MonWriter::new();
            let _ = catch_unwind(AssertUnwindSafe(|| Boom(&s, &v).serialize(&mut Serializer::new(&mut w)).is_ok()));
            let mut rd = b.as_slice();
            let _ = catch_unwind(AssertUnwindSafe(|| BoomSeed(&s).deserialize(&mut Deserializer::new(&mut rd)).is_ok()));
            let _ = take_panic();
        }
        "refused" => {
            let mut w = Vec::new();
            guard(k, || {
                let mut s = Serializer::new(&mut w);
                let _ = (7u8, 5i128).serialize(&mut s);
                let _ = Some(5u128).serialize(&mut s);
                let _ = ("x", Unknown(r.bool())).serialize(&mut s);
                let m: std::collections::BTreeMap<u32, &str> = [(3, "x")].into();
                let _ = m.serialize(&mut s);
                let b = [3u8, 97, 98, 99, 0, 0];
                let _ = serde::de::IgnoredAny::deserialize(&mut Deserializer::new(&mut &b[..]));
                let _ = i128::deserialize(&mut Deserializer::new(&mut &b[..]));
                let _ = <(String, u128)>::deserialize(&mut Deserializer::new(&mut &b[..]));
            })?;
        }
        "numbers" => {
            let budget = r.below(60);
            let a = gen_big_bytes(r, false, budget);
            let n = num_bigint::BigUint::from_bytes_le(&a);
            guard(k, || {
                let x: dlhn::BigUint = n.clone().into();
                let y: num_bigint::BigUint = x.clone().into();
                let i: dlhn::BigInt = num_bigint::BigInt::from_signed_bytes_le(&a).into();
                let j: num_bigint::BigInt = i.clone().into();
                let d: dlhn::BigDecimal = bigdecimal::BigDecimal::new(j.clone(), r.int(8) as i64 - 100).into();
                let e: bigdecimal::BigDecimal = d.clone().into();
                let mut w = Vec::new();
                let mut s = Serializer::new(&mut w);
                let _ = (x, i, d).serialize(&mut s);
                drop((y, j, e));
                let _ = <(dlhn::BigUint, dlhn::BigInt, dlhn::BigDecimal)>::deserialize(&mut Deserializer::new(&mut w.as_slice()));
            })?;
        }
        "dates" => {
            let d = corpus::gen_time_date(r);
            let t = corpus::gen_odt(r);
            let raw: Vec<u8> = (0..14).map(|_| r.u8()).collect();
            guard(k, || {
                let x: dlhn::Date = d.into();
                let y: dlhn::DateTime = t.into();
                let mut w = Vec::new();
                let _ = (&x, &y).serialize(&mut Serializer::new(&mut w));
                let _: Result<time::Date, ()> = x.try_into();
                let _: Result<time::OffsetDateTime, ()> = y.try_into();
                for b in [&w[..], &raw[..]] {
                    let mut rd = b;
                    if let Ok((x, y)) = <(dlhn::Date, dlhn::DateTime)>::deserialize(&mut Deserializer::new(&mut rd)) {
                        let _: Result<time::Date, ()> = x.try_into();
                        let _: Result<time::OffsetDateTime, ()> = y.try_into();
                    }
                }
            })?;
        }
        "real-types" => {
            let e = r.pick(es);
            let (_, b) = e.gen_ser(r, 40)?;
            if let Ok(b) = b {
                let _ = (e.de)(&mut MonReader::new(&b))?;
            }
            if let Some(h) = e.header() {
                let _ = h?;
            }
        }
        _ => {
            let e = r.pick(es);
            let s = (e.shape)();
            if !s.has_zero_width_elements() {
                let b = gen_hostile(r, &s, 200);
                let _ = (e.de)(&mut MonReader::new(&b))?;
            }
            if let Some(f) = e.header_to {
                let at = r.below(20);
                let _ = f(&mut MonWriter::with(Sched::Whole, Some((at, Fault::End))))?;
            }
        }
    }
    Ok(())
}

/// Open files and threads of this process. The watchdog opens files now and then: the least of
/// several looks.
fn process() -> (usize, usize) {
    let n = |d: &str| std::fs::read_dir(d).map(|x| x.count()).unwrap_or(0);
    (0..20)
        .map(|_| {
            std::thread::sleep(Duration::from_millis(3));
            (n("/proc/self/fd"), n("/proc/self/task"))
        })
        .fold((usize::MAX, usize::MAX), |a, b| (a.0.min(b.0), a.1.min(b.1)))
}

pub fn c19(run: &Run) {
    let before = process();
    let es = corpus::entries();
    let n = if run.thorough() { 12_000 } else { 3_000 };
    run.section("windows", KINDS.len() as u64 * run.n(3, 40), |c| {
        let k = KINDS[c.idx as usize % KINDS.len()];
        let n = match k {
            "user-panics" => n / 3,
            "refused" | "dates" | "numbers" | "header" => n * 2,
            _ => n,
        };
        let h = c.rng.u64();
        // everything this monitor allocates lies outside of the windows
        let mut r = c.rng.clone();
        // Each window more than doubles the number of operations: what is kept in a growing buffer
        // asks for memory only when it doubles.
        let ends = [n * 9 / 10, n * 19 / 10, n * 4, n * 44 / 5];
        let mut marks = [0isize; 4];
        let mut done = 0;
        for (m, end) in marks.iter_mut().zip(ends) {
            for _ in done..end {
                some_op(k, &mut r, &es)?;
            }
            done = end;
            let _ = take_panic();
            *m = held();
        }
        let grown = marks[3] - marks[0];
        // Whatever fills up for a while is over after the first window, unless it never is.
        let steady = marks.windows(2).all(|w| w[1] > w[0]);
        ensure!(
            !(steady && grown >= 1024),
            "{}: {} operations leave {} bytes behind that are never given back, more after each of {:?} operations: {:?}",
            k, ends[3] - ends[0], grown, ends, marks
        );
        c.count("operations", done as u64);
        c.max("bytes_left_behind", grown.max(0) as u64);
        c.evals(done as u64);
        c.seen(h);
        c.sample(|| format!("{}: held after each window {:?}", k, marks));
        Ok(())
    });
    if run.cfg.replay.is_none() {
        let after = process();
        run.count("open_files", after.0 as u64);
        if after.0 > before.0 + 2 || after.1 > before.1 + 2 {
            run.violation("process", 0, 0, format!("open files and threads before {:?}, after all operations {:?}", before, after));
        }
    }
}

// ---- C20 -----------------------------------------------------------------------------------

struct Cost {
    asked: u64,
    calls: u64,
    cpu: Duration,
    /// bytes still held by the result
    kept: isize,
}

type Make = fn(&mut Rng, usize) -> (Shape, Val);

/// A map of `n` entries of which every second has the same key.
fn repeats(r: &mut Rng, n: usize, key: &str) -> (Shape, Val) {
    let m = (0..n).map(|i| (if i % 2 == 0 { format!("k{:07}", i) } else { key.to_string() }, Val::U8(r.u8())));
    (Shape::Map(Box::new(Shape::U8)), Val::Map(m.collect()))
}

fn seq(s: Shape, n: usize, mut f: impl FnMut(usize) -> Val) -> (Shape, Val) {
    (Shape::Seq(Box::new(s)), Val::Seq((0..n).map(|i| f(i)).collect()))
}

/// Content whose encoding takes about `n` bytes.
const MAKE: &[(&str, Make)] = &[
    ("string", |r, n| (Shape::Str, Val::Str(gen_string(r, n)))),
    ("ascii string", |_, n| (Shape::Str, Val::Str("a".repeat(n)))),
    ("bytes", |r, n| (Shape::Bytes, Val::Bytes(r.bytes(n)))),
    ("u8s", |r, n| seq(Shape::U8, n, |_| Val::U8(r.u8()))),
    ("bools", |r, n| seq(Shape::Bool, n, |_| Val::Bool(r.bool()))),
    ("u64s", |r, n| seq(Shape::U64, n / 9, |_| Val::U64(r.u64()))),
    ("i32s", |r, n| seq(Shape::I32, n / 4, |_| Val::I32(r.u32() as i32))),
    ("f64s", |r, n| seq(Shape::F64, n / 8, |_| Val::F64(gen_f64(r)))),
    ("strings", |r, n| seq(Shape::Str, n / 8, |_| Val::Str(gen_string(r, 7)))),
    ("byte strings", |r, n| seq(Shape::Bytes, n / 8, |_| Val::Bytes(r.bytes(7)))),
    ("chars", |_, n| seq(Shape::Char, n / 2, |_| Val::Char('x'))),
    ("options", |r, n| seq(Shape::Opt(Box::new(Shape::U8)), n / 2, |i| if i % 3 == 0 { Val::None } else { Val::Some(Box::new(Val::U8(r.u8()))) })),
    ("units in options", |_, n| seq(Shape::Opt(Box::new(Shape::Unit)), n, |_| Val::Some(Box::new(Val::Unit)))),
    ("lists", |r, n| seq(Shape::Seq(Box::new(Shape::U8)), n / 5, |_| Val::Seq((0..4).map(|_| Val::U8(r.u8())).collect()))),
    ("one list in a list", |r, n| seq(Shape::Seq(Box::new(Shape::U8)), 1, |_| Val::Seq((0..n).map(|_| Val::U8(r.u8())).collect()))),
    ("structs", |r, n| seq(Shape::Struct(vec![Shape::U8, Shape::Str]), n / 5, |_| Val::Tuple(vec![Val::U8(r.u8()), Val::Str("abc".into())]))),
    ("tuples", |r, n| seq(Shape::Tuple(vec![Shape::U8, Shape::Bool]), n / 2, |_| Val::Tuple(vec![Val::U8(r.u8()), Val::Bool(true)]))),
    ("map", |r, n| (Shape::Map(Box::new(Shape::U8)), Val::Map((0..n / 10).map(|i| (format!("k{:07}", i), Val::U8(r.u8()))).collect()))),
    ("map in descending order", |r, n| (Shape::Map(Box::new(Shape::U8)), Val::Map((0..n / 10).rev().map(|i| (format!("k{:07}", i), Val::U8(r.u8()))).collect()))),
    ("map in no order", |r, n| {
        let mut k: Vec<usize> = (0..n / 10).collect();
        r.shuffle(&mut k);
        (Shape::Map(Box::new(Shape::U8)), Val::Map(k.iter().map(|i| (format!("k{:07}", i), Val::U8(r.u8()))).collect()))
    }),
    ("map of long keys", |_, n| {
        let k = "long".repeat(100);
        (Shape::Map(Box::new(Shape::Bool)), Val::Map((0..n / 410).map(|i| (format!("{}{:07}", k, i * 7919 % (n / 410)), Val::Bool(true))).collect()))
    }),
    ("one key again and again", |r, n| (Shape::Map(Box::new(Shape::U8)), Val::Map((0..n / 5).map(|_| ("key".into(), Val::U8(r.u8()))).collect()))),
    ("map that repeats the empty key", |r, n| repeats(r, n / 8, "")),
    ("map that repeats its first key", |r, n| repeats(r, n / 10, "k0000000")),
    ("map that repeats its last key", |r, n| repeats(r, n / 10, "k9999999")),
    ("map of keys of one letter more", |r, n| {
        // each key starts with the one before, over and over
        let m = (0..n / 130).map(|i| ("k".repeat(i % 256), Val::U8(r.u8()))).collect();
        (Shape::Map(Box::new(Shape::U8)), Val::Map(m))
    }),
    ("equal strings", |_, n| seq(Shape::Str, n / 8, |_| Val::Str("again!!".into()))),
    ("empty strings", |_, n| seq(Shape::Str, n, |_| Val::Str("".into()))),
    ("empty lists", |_, n| seq(Shape::Seq(Box::new(Shape::U64)), n, |_| Val::Seq(vec![]))),
    ("map of maps", |_, n| {
        let one = Val::Map(vec![("a".into(), Val::Bool(true)), ("b".into(), Val::Bool(false))]);
        let m = (0..n / 16).map(|i| (format!("k{:07}", i), one.clone())).collect();
        (Shape::Map(Box::new(Shape::Map(Box::new(Shape::Bool)))), Val::Map(m))
    }),
    ("enums", |r, n| {
        let s = Shape::Enum(vec![(0, Variant::Unit), (1, Variant::Newtype(Shape::U8)), (2, Variant::Struct(vec![Shape::Str, Shape::U8]))]);
        seq(s, n / 3, |_| match r.below(3) {
            0 => Val::Enum(0, Box::new(Val::Unit)),
            1 => Val::Enum(1, Box::new(Val::U8(7))),
            _ => Val::Enum(2, Box::new(Val::Tuple(vec![Val::Str("abc".into()), Val::U8(1)]))),
        })
    }),
    ("big uint", |r, n| {
        let mut b = r.bytes(n);
        b.push(1);
        (Shape::BigUint, Val::BigUint(b))
    }),
    ("big int", |r, n| {
        let mut b = r.bytes(n);
        b.push(0x81);
        (Shape::BigInt, Val::BigInt(b))
    }),
    ("big uints", |_, n| seq(Shape::BigUint, n / 4, |i| Val::BigUint(vec![i as u8, 2, 3]))),
    ("dates", |_, n| seq(Shape::Date, n / 3, |i| Val::Date(2000 + (i % 20) as i32, 1 + (i % 100) as u16))),
    ("nested options", |_, n| {
        let d = 40 + n / 2048;
        let mut s = Shape::Bytes;
        let mut v = Val::Bytes(vec![7; 2000]);
        for _ in 0..d.min(700) {
            s = Shape::Opt(Box::new(s));
            v = Val::Some(Box::new(v));
        }
        (s, v)
    }),
    ("wide levels", |r, n| {
        // levels that each hold as much as the one below: work done once per level and again for
        // each level above shows
        let levels = 16 * (n / 65_536).max(1);
        let width = n / levels;
        let mut s = Shape::U8;
        let mut v = Val::U8(1);
        for _ in 0..levels {
            let l = Val::Seq((0..width).map(|_| Val::U8(r.u8())).collect());
            s = Shape::Tuple(vec![s, Shape::Seq(Box::new(Shape::U8))]);
            v = Val::Tuple(vec![v, l]);
        }
        (s, v)
    }),
    ("long tuple", |r, n| {
        let n = n / 2;
        (Shape::Tuple(vec![Shape::U16; n.min(65_000)]), Val::Tuple((0..n.min(65_000)).map(|_| Val::U16(r.u32() as u16)).collect()))
    }),
];

fn measure<T>(what: &str, io: impl FnOnce() -> (R<T>, u64)) -> R<(Cost, T)> {
    let (a0, h0, t0) = (asked(), held(), cpu());
    let (r, calls) = io();
    let c = Cost { asked: asked() - a0, calls, cpu: cpu() - t0, kept: held() - h0 };
    match r {
        Ok(x) => Ok((c, x)),
        Err(Broken::Vio(m)) => Err(Broken::Vio(format!("{}: {}", what, m))),
        Err(e) => Err(e),
    }
}

/// CPU time of the same operation on little data and on `factor` times as much.
fn compare(c: &mut Case, factor: u32, small: &Cost, large: &Cost) -> bool {
    c.max("calls_ratio_x100", large.calls * 100 / small.calls.max(1_000));
    c.max("asked_ratio_x100", large.asked * 100 / small.asked.max(100_000));
    let cpu_ratio = large.cpu.as_micros() as u64 * 100 / (small.cpu.as_micros() as u64).max(2_000);
    c.max("cpu_ratio_x100", cpu_ratio);
    c.evals(1);
    large.cpu <= small.cpu * 4 * factor + Duration::from_millis(50)
}

const SMALL: usize = 64 << 10;

/// One operation on content of the given size, as often as wanted.
type Op<'a> = &'a dyn Fn(usize) -> R<Cost>;

fn linear(c: &mut Case, what: &str, factor: usize, op: Op) -> R {
    linear_at(c, what, "bytes of data", SMALL, factor, op)
}

fn linear_at(c: &mut Case, what: &str, unit: &str, small: usize, factor: usize, op: Op) -> R {
    let mut last = String::new();
    let large = small * factor;
    for _ in 0..4 {
        let s = op(small)?;
        let l = op(large)?;
        let f = factor as u64;
        ensure!(
            l.calls <= s.calls * f * 3 / 2 + 2_000,
            "{}: {} transfers for {} {}, but {} for {}",
            what, s.calls, small, unit, l.calls, large
        );
        ensure!(
            l.asked <= s.asked * f * 3 + (8 << 20),
            "{}: {} bytes of memory asked for in all with {} {}, but {} with {}",
            what, s.asked, small, unit, l.asked, large
        );
        c.count("operations_measured", 2);
        if compare(c, factor as u32, &s, &l) {
            return Ok(());
        }
        last = format!("{:?} of CPU for {} {}, but {:?} for {}", s.cpu, small, unit, l.cpu, large);
    }
    vio!("{}: {}, four times in a row", what, last)
}

const CHAINS: &[&str] = &["options", "arrays", "maps", "tuples", "enums", "all sorts"];

/// Nesting is the measure: `depth` levels around one small value.
fn chain(k: usize, depth: usize) -> (Shape, Val) {
    let mut s = Shape::U8;
    let mut v = Val::U8(7);
    for i in 0..depth {
        (s, v) = match if k == 5 { i % 5 } else { k } {
            0 => (Shape::Opt(Box::new(s)), Val::Some(Box::new(v))),
            1 => (Shape::Seq(Box::new(s)), Val::Seq(vec![v])),
            2 => (Shape::Map(Box::new(s)), Val::Map(vec![("k".into(), v)])),
            3 => (Shape::Tuple(vec![s]), Val::Tuple(vec![v])),
            _ => (Shape::Enum(vec![(0, Variant::Newtype(s))]), Val::Enum(0, Box::new(v))),
        };
    }
    (s, v)
}

fn depth_costs(c: &mut Case, k: usize) -> R {
    const SHALLOW: usize = 400;
    let factor = 64;
    let name = CHAINS[k];
    let made = [chain(k, SHALLOW), chain(k, SHALLOW * factor)];
    let es = [encode(&made[0].1), encode(&made[1].1)];
    let i = |n: usize| usize::from(n != SHALLOW);
    let mut lin = |what: String, op: Op| linear_at(c, &format!("{} {}", what, name), "levels", SHALLOW, factor, op);
    lin("write nested".into(), &|n| {
        let mut w = MonWriter::new();
        let (cost, ok) = measure("write", || {
            let r = guard("serialize", || Typed(&made[i(n)].0, &made[i(n)].1).serialize(&mut Serializer::new(&mut w)).is_ok());
            (r, w.stats.calls)
        })?;
        ensure!(ok && w.out == es[i(n)], "{} levels of {} are not written as they should be", n, name);
        Ok(cost)
    })?;
    for cut in [0, 1] {
        lin(format!("read {}nested", ["", "cut short "][cut]), &|n| {
            let e = &es[i(n)];
            let mut rd = MonReader::new(&e[..e.len() - cut]);
            let (cost, got) = measure("read", || {
                let r = de_shape(&made[i(n)].0, &mut rd);
                (r, rd.stats.calls)
            })?;
            ensure!(got.0.is_ok() == (cut == 0), "{} levels of {}, {} bytes missing: {:?}", n, name, cut, got.0.is_ok());
            Ok(cost)
        })?;
    }
    let hs = match (dynamic::to_header(&made[0].0), dynamic::to_header(&made[1].0)) {
        (Some(a), Some(b)) => [a, b],
        _ => return Err(Broken::Harness("a chain has no header".into())),
    };
    let hes = [encode_header(&hs[0]).unwrap_or_default(), encode_header(&hs[1]).unwrap_or_default()];
    lin("write a header of nested".into(), &|n| {
        let mut w = MonWriter::new();
        let (cost, ok) = measure("write", || {
            let r = guard("Header::serialize", || hs[i(n)].serialize(&mut w).is_ok());
            (r, w.stats.calls)
        })?;
        ensure!(ok && w.out == hes[i(n)], "a header of {} levels of {} is not written as it should be", n, name);
        Ok(cost)
    })?;
    for cut in [0, 1] {
        lin(format!("read a {}header of nested", ["", "cut short "][cut]), &|n| {
            let e = &hes[i(n)];
            let mut rd = MonReader::new(&e[..e.len() - cut]);
            let (cost, got) = measure("read", || {
                let r = de_header(&mut rd);
                (r, rd.stats.calls)
            })?;
            ensure!(got.0.is_ok() == (cut == 0), "a header of {} levels of {}, {} bytes missing: {:?}", n, name, cut, got.0.is_ok());
            Ok(cost)
        })?;
    }
    let mut bodies = vec![];
    for n in [0, 1] {
        let (got, _) = de_body(&hs[n], &mut MonReader::new(&es[n]))?;
        match got {
            Ok(b) => bodies.push(b),
            Err(e) => vio!("a body of nested {} is not read: {:?}", name, e),
        }
    }
    for cut in [0, 1] {
        lin(format!("read a {}body of nested", ["", "cut short "][cut]), &|n| {
            let e = &es[i(n)];
            let mut rd = MonReader::new(&e[..e.len() - cut]);
            let (cost, got) = measure("read", || {
                let r = de_body(&hs[i(n)], &mut rd);
                (r, rd.stats.calls)
            })?;
            ensure!(got.0.is_ok() == (cut == 0), "a body of {} levels of {}, {} bytes missing: {:?}", n, name, cut, got.0.is_ok());
            Ok(cost)
        })?;
    }
    lin("validate a body of nested".into(), &|n| {
        let (cost, ok) = measure("validate", || (validate(&bodies[i(n)], &hs[i(n)]), 0))?;
        ensure!(ok, "a body of {} levels of {} does not validate", n, name);
        Ok(cost)
    })?;
    // differs in the innermost place
    let other = chain(k, SHALLOW * factor).0;
    let mut wrong = [dynamic::to_header(&chain(k, SHALLOW).0).unwrap(), dynamic::to_header(&other).unwrap()];
    for w in &mut wrong {
        innermost(w, Header::String);
    }
    lin("refuse a body of nested".into(), &|n| {
        let (cost, ok) = measure("validate", || (validate(&bodies[i(n)], &wrong[i(n)]), 0))?;
        ensure!(!ok, "a body of {} levels of {} validates under another header", n, name);
        Ok(cost)
    })?;
    lin("write a body of nested".into(), &|n| {
        let mut w = MonWriter::new();
        let (cost, ok) = measure("write", || {
            let r = guard("serialize", || bodies[i(n)].serialize(&mut Serializer::new(&mut w)).is_ok());
            (r, w.stats.calls)
        })?;
        ensure!(ok && w.out == es[i(n)], "a body of {} levels of {} is not written as it should be", n, name);
        Ok(cost)
    })?;
    c.max("deepest", (SHALLOW * factor) as u64);
    c.seen(mix(k as u64, 96));
    Ok(())
}

fn innermost(h: &mut Header, x: Header) {
    match h {
        Header::Optional(h) | Header::Array(h) | Header::Map(h) => innermost(h, x),
        Header::Tuple(v) | Header::Enum(v) => innermost(&mut v[0], x),
        h => *h = x,
    }
}

fn shape_costs(c: &mut Case, name: &str, make: Make, factor: usize) -> R {
    let seed = c.rng.u64();
    let one = c.rng.pct(30);
    let sch = move || if one { Sched::One } else { Sched::Whole };
    let data = |n: usize| {
        let (s, v) = make(&mut Rng::new(seed), n);
        let e = encode(&v);
        (s, v, e)
    };
    // both sizes are built once
    let both = [data(SMALL), data(SMALL * factor)];
    let at = |n: usize| if n == SMALL { &both[0] } else { &both[1] };
    linear(c, &format!("write {}", name), factor, &|n| {
        let (s, v, e) = at(n);
        let mut w = MonWriter::with(sch(), None);
        w.out.reserve(e.len() + 10);
        let (cost, ok) = measure("write", || {
            let r = guard("serialize", || Typed(s, v).serialize(&mut Serializer::new(&mut w)).is_ok());
            (r, w.stats.calls)
        })?;
        ensure!(ok && w.out == *e, "{} is not written as it should be", name);
        Ok(cost)
    })?;
    linear(c, &format!("read {}", name), factor, &|n| {
        let (s, _, e) = at(n);
        let mut rd = MonReader::with(e, sch(), None);
        let (cost, got) = measure("read", || {
            let r = de_shape(s, &mut rd);
            (r, rd.stats.calls)
        })?;
        ensure!(got.0.is_ok(), "{} is not read", name);
        ensure!(
            cost.kept <= 160 * e.len() as isize + 100_000,
            "read {}: {} bytes of input become {} bytes in memory", name, e.len(), cost.kept
        );
        Ok(cost)
    })?;
    linear(c, &format!("read {} cut short", name), factor, &|n| {
        let (s, _, e) = at(n);
        let mut rd = MonReader::with(&e[..e.len() - 1], sch(), None);
        let (cost, got) = measure("read", || {
            let r = de_shape(s, &mut rd);
            (r, rd.stats.calls)
        })?;
        ensure!(got.0.is_err(), "{} is read from a part", name);
        Ok(cost)
    })?;
    if let Some(_) = dynamic::to_header(&both[0].0) {
        let hs = [dynamic::to_header(&both[0].0).unwrap(), dynamic::to_header(&both[1].0).unwrap()];
        let h = |n: usize| if n == SMALL { &hs[0] } else { &hs[1] };
        let bodies = [
            guard("wrap", || dynamic::to_body(&both[0].0, &both[0].1))??,
            guard("wrap", || dynamic::to_body(&both[1].0, &both[1].1))??,
        ];
        let body = |n: usize| if n == SMALL { &bodies[0] } else { &bodies[1] };
        linear(c, &format!("read a body of {}", name), factor, &|n| {
            let mut rd = MonReader::with(&at(n).2, sch(), None);
            let (cost, got) = measure("read", || {
                let r = de_body(h(n), &mut rd);
                (r, rd.stats.calls)
            })?;
            ensure!(got.0.is_ok(), "a body of {} is not read", name);
            Ok(cost)
        })?;
        linear(c, &format!("validate a body of {}", name), factor, &|n| {
            let (cost, ok) = measure("validate", || (validate(body(n), h(n)), 0))?;
            ensure!(ok, "a body of {} does not validate", name);
            Ok(cost)
        })?;
        linear(c, &format!("write a body of {}", name), factor, &|n| {
            let mut w = MonWriter::with(sch(), None);
            w.out.reserve(at(n).2.len() + 10);
            let (cost, ok) = measure("write", || {
                let r = guard("serialize", || body(n).serialize(&mut Serializer::new(&mut w)).is_ok());
                (r, w.stats.calls)
            })?;
            ensure!(ok, "a body of {} is not written", name);
            Ok(cost)
        })?;
    }
    c.seen(mix(seed, hash_bytes(name.as_bytes())));
    c.sample(|| format!("{} of {} and {} bytes", name, both[0].2.len(), both[1].2.len()));
    Ok(())
}

/// Headers whose size is the measure.
fn header_costs(c: &mut Case, k: usize, factor: usize) -> R {
    let make = |n: usize| -> Header {
        match k {
            0 => Header::Tuple(vec![Header::UInt8; n]),
            1 => Header::Enum(vec![Header::Unit; (n / 16).min(65_000)]),
            2 => Header::Tuple((0..n / 8).map(|_| Header::Array(Box::new(Header::Map(Box::new(Header::String))))).collect()),
            3 => {
                let mut h = Header::Tuple(vec![Header::Boolean; 50]);
                for _ in 0..(n / 1024).min(900) {
                    h = Header::Optional(Box::new(h))
                }
                h
            }
            _ => {
                let levels = 16 * (n / SMALL);
                let mut h = Header::UInt8;
                for _ in 0..levels {
                    let mut v = vec![Header::Boolean; n / levels];
                    v.push(h);
                    h = if k == 4 { Header::Tuple(v) } else { Header::Enum(v) };
                }
                h
            }
        }
    };
    let name = ["tuple", "enum", "tuple of lists", "deep option", "wide levels", "wide enum levels"][k];
    let hs = [make(SMALL), make(SMALL * factor)];
    let es: Vec<Vec<u8>> = hs.iter().map(|h| encode_header(h).unwrap_or_default()).collect();
    let i = |n: usize| usize::from(n != SMALL);
    let one = c.rng.pct(30);
    let sch = move || if one { Sched::One } else { Sched::Whole };
    if es.iter().all(|e| !e.is_empty()) {
        linear(c, &format!("write a header: {}", name), factor, &|n| {
            let mut w = MonWriter::with(sch(), None);
            w.out.reserve(es[i(n)].len() + 10);
            let (cost, ok) = measure("write", || {
                let r = guard("Header::serialize", || hs[i(n)].serialize(&mut w).is_ok());
                (r, w.stats.calls)
            })?;
            ensure!(ok && w.out == es[i(n)], "a header is not written as it should be: {}", name);
            Ok(cost)
        })?;
        linear(c, &format!("read a header: {}", name), factor, &|n| {
            let mut rd = MonReader::with(&es[i(n)], sch(), None);
            let (cost, got) = measure("read", || {
                let r = de_header(&mut rd);
                (r, rd.stats.calls)
            })?;
            ensure!(got.0.is_ok(), "a header is not read: {}", name);
            Ok(cost)
        })?;
        linear(c, &format!("read a header cut short: {}", name), factor, &|n| {
            let e = &es[i(n)];
            let mut rd = MonReader::with(&e[..e.len() - 1], sch(), None);
            let (cost, got) = measure("read", || {
                let r = de_header(&mut rd);
                (r, rd.stats.calls)
            })?;
            ensure!(got.0.is_err(), "a header is read from a part: {}", name);
            Ok(cost)
        })?;
    }
    c.seen(mix(k as u64, 99));
    Ok(())
}

/// Values of an enum with many variants, and tuples of tuples: many values times many variants.
fn dynamic_costs(c: &mut Case, k: usize, factor: usize) -> R {
    let make = |n: usize| -> (Header, Body) {
        let m = match k {
            0 => (n / 64).min(65_000),
            _ => 3,
        };
        let h = Header::Enum((0..m).map(|i| if i % 2 == 0 { Header::UInt8 } else { Header::Boolean }).collect());
        let items = n / 16;
        let v = (0..items).map(|i| {
            let x = m - 1 - i % m.min(7);
            Body::Enum(x as u32, Box::new(if x % 2 == 0 { Body::UInt8(1) } else { Body::Boolean(true) }))
        });
        match k {
            0 => (Header::Array(Box::new(h)), Body::Array(v.collect())),
            1 => (Header::Map(Box::new(h)), Body::Map(v.enumerate().map(|(i, b)| (format!("{:06}", i), b)).collect())),
            _ => (Header::Tuple(vec![h; items]), Body::Tuple(v.collect())),
        }
    };
    let name = ["an enum of many variants", "a map of enums", "a long tuple of enums"][k];
    let hb = [make(SMALL), make(SMALL * factor)];
    let i = |n: usize| usize::from(n != SMALL);
    let mut es: Vec<Vec<u8>> = vec![];
    for (_, b) in &hb {
        match ser(b)? {
            Ok(e) => es.push(e),
            Err(e) => vio!("{}: not written: {:?}", name, e),
        }
    }
    linear(c, &format!("validate {}", name), factor, &|n| {
        let (cost, ok) = measure("validate", || (validate(&hb[i(n)].1, &hb[i(n)].0), 0))?;
        ensure!(ok, "{} does not validate", name);
        Ok(cost)
    })?;
    linear(c, &format!("read {}", name), factor, &|n| {
        let mut rd = MonReader::new(&es[i(n)]);
        let (cost, got) = measure("read", || {
            let r = de_body(&hb[i(n)].0, &mut rd);
            (r, rd.stats.calls)
        })?;
        ensure!(got.0.is_ok(), "{} is not read", name);
        Ok(cost)
    })?;
    linear(c, &format!("write {}", name), factor, &|n| {
        let mut w = MonWriter::new();
        let (cost, ok) = measure("write", || {
            let r = guard("serialize", || hb[i(n)].1.serialize(&mut Serializer::new(&mut w)).is_ok());
            (r, w.stats.calls)
        })?;
        ensure!(ok, "{} is not written", name);
        Ok(cost)
    })?;
    c.seen(mix(k as u64, 98));
    Ok(())
}

fn real<T: Serialize + serde::de::DeserializeOwned>(c: &mut Case, name: &str, factor: usize, make: impl Fn(usize) -> T) -> R {
    let both = [make(SMALL), make(SMALL * factor)];
    let i = |n: usize| usize::from(n != SMALL);
    let mut es: Vec<Vec<u8>> = vec![];
    for t in &both {
        match ser(t)? {
            Ok(e) => es.push(e),
            Err(e) => vio!("{}: not written: {:?}", name, e),
        }
    }
    linear(c, &format!("write {}", name), factor, &|n| {
        let mut w = MonWriter::new();
        w.out.reserve(es[i(n)].len() + 10);
        let (cost, ok) = measure("write", || {
            let r = guard("serialize", || both[i(n)].serialize(&mut Serializer::new(&mut w)).is_ok());
            (r, w.stats.calls)
        })?;
        ensure!(ok, "{} is not written", name);
        Ok(cost)
    })?;
    linear(c, &format!("read {}", name), factor, &|n| {
        let mut rd = MonReader::new(&es[i(n)]);
        let (cost, got) = measure("read", || {
            let r = guard("deserialize", || T::deserialize(&mut Deserializer::new(&mut rd)));
            (r, rd.stats.calls)
        })?;
        ensure!(got.is_ok(), "{} is not read", name);
        ensure!(
            cost.kept <= 80 * es[i(n)].len() as isize + 100_000,
            "read {}: {} bytes of input become {} bytes in memory", name, es[i(n)].len(), cost.kept
        );
        Ok(cost)
    })?;
    c.seen(hash_bytes(name.as_bytes()));
    Ok(())
}

#[derive(Serialize, Deserialize)]
struct Num(#[serde(with = "dlhn::format::big_uint")] num_bigint::BigUint, #[serde(with = "dlhn::format::big_int")] num_bigint::BigInt);

fn real_costs(c: &mut Case, k: usize, f: usize) -> R {
    use std::collections::*;
    let key = |i: usize| format!("key-{:07}", i);
    match k {
        0 => real(c, "String", f, |n| "x".repeat(n)),
        1 => real(c, "Vec<u8>", f, |n| vec![3u8; n]),
        2 => real(c, "ByteBuf", f, |n| serde_bytes::ByteBuf::from(vec![3u8; n])),
        3 => real(c, "Vec<String>", f, |n| (0..n / 12).map(key).collect::<Vec<_>>()),
        4 => real(c, "BTreeMap<String, u32>", f, |n| (0..n / 15).map(|i| (key(i), i as u32)).collect::<BTreeMap<_, _>>()),
        5 => real(c, "HashMap<String, bool>", f, |n| (0..n / 13).map(|i| (key(i), true)).collect::<HashMap<_, _>>()),
        6 => real(c, "Vec<(u8, Option<String>)>", f, |n| (0..n / 12).map(|i| (i as u8, Some(key(i)))).collect::<Vec<_>>()),
        7 => real(c, "numbers in a struct", f, |n| {
            let b: Vec<u8> = (0..n / 2).map(|i| (i * 7 + 1) as u8 | 1).collect();
            Num(num_bigint::BigUint::from_bytes_le(&b), num_bigint::BigInt::from_signed_bytes_le(&b))
        }),
        8 => real(c, "Vec<Vec<i64>>", f, |n| (0..n / 20).map(|i| vec![i as i64, -(i as i64)]).collect::<Vec<_>>()),
        9 => real(c, "Vec<f64>", f, |n| (0..n / 8).map(|i| i as f64).collect::<Vec<_>>()),
        10 => real(c, "BTreeMap<String, BTreeMap<String, u8>>", f, |n| {
            (0..n / 14).map(|i| (key(i), BTreeMap::from([("a".to_string(), 1u8)]))).collect::<BTreeMap<_, _>>()
        }),
        _ => {
            // conversions of the wrappers
            let b = |n: usize| -> Vec<u8> { (0..n).map(|i| (i * 7 + 1) as u8 | 1).collect() };
            let us = [num_bigint::BigUint::from_bytes_le(&b(SMALL)), num_bigint::BigUint::from_bytes_le(&b(SMALL * f))];
            let is = [num_bigint::BigInt::from_signed_bytes_le(&b(SMALL)), num_bigint::BigInt::from_signed_bytes_le(&b(SMALL * f))];
            let i = |n: usize| usize::from(n != SMALL);
            linear(c, "convert a big unsigned integer", f, &|n| {
                let (cost, ok) = measure("convert", || {
                    (guard("convert", || Into::<num_bigint::BigUint>::into(dlhn::BigUint::from(us[i(n)].clone())) == us[i(n)]), 0)
                })?;
                ensure!(ok, "a big unsigned integer changes");
                Ok(cost)
            })?;
            linear(c, "convert a big integer", f, &|n| {
                let (cost, ok) = measure("convert", || {
                    (guard("convert", || Into::<num_bigint::BigInt>::into(dlhn::BigInt::from(is[i(n)].clone())) == is[i(n)]), 0)
                })?;
                ensure!(ok, "a big integer changes");
                Ok(cost)
            })?;
            c.seen(97);
            Ok(())
        }
    }
}

pub fn c20(run: &Run) {
    let factor = if run.thorough() { 64 } else { 16 };
    run.section("shapes", MAKE.len() as u64 * run.n(1, 2), |c| {
        let (name, make) = MAKE[c.idx as usize % MAKE.len()];
        shape_costs(c, name, make, factor)
    });
    run.section("depth", CHAINS.len() as u64, |c| on_big_stack(|| depth_costs(c, c.idx as usize % CHAINS.len())));
    run.section("headers", 6 * run.n(1, 2), |c| header_costs(c, c.idx as usize % 6, factor));
    run.section("dynamic", 3 * run.n(1, 2), |c| dynamic_costs(c, c.idx as usize % 3, factor));
    run.section("real-types", 12 * run.n(1, 2), |c| real_costs(c, c.idx as usize % 12, factor));
}
