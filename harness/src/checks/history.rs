//! C09 streams, C15 independence from history and threads.
use super::util::*;
use crate::mon::*;
use crate::{ensure, vio};
use dlhn::{Body, DeserializeHeader, Deserializer, Header, Serializer};
use refmodel::*;
use serde::de::DeserializeSeed;
use serde::ser::{SerializeMap, SerializeSeq, SerializeTuple};
use serde::Serialize;
use std::cell::{Cell, RefCell};
use std::io::{Read, Write};
use std::rc::Rc;

// ---- C09 -----------------------------------------------------------------------------------

#[derive(Clone)]
struct SharedW(Rc<RefCell<MonWriter>>);
impl Write for SharedW {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.borrow_mut().write(b)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

#[derive(Clone)]
struct SharedR<'a>(Rc<RefCell<MonReader<'a>>>);
impl<'a> Read for SharedR<'a> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.0.borrow_mut().read(b)
    }
}

enum Item {
    Head(Header),
    Typed(Shape, Val),
    Dyn(Header, Shape, Val, Body),
}

impl Item {
    fn bytes(&self) -> Vec<u8> {
        match self {
            Item::Head(h) => encode_header(h).unwrap(),
            Item::Typed(_, v) => encode(v),
            Item::Dyn(_, _, v, _) => encode(v),
        }
    }
    fn brief(&self) -> String {
        match self {
            Item::Head(h) => format!("header {}", clip(&format!("{:?}", h), 200)),
            Item::Typed(s, v) => format!("{} as {}", v.brief(), s.brief()),
            Item::Dyn(h, _, v, _) => format!("{} under {}", v.brief(), clip(&format!("{:?}", h), 200)),
        }
    }
    fn zero_width(&self) -> bool {
        match self {
            Item::Head(_) => false,
            Item::Typed(s, _) | Item::Dyn(_, s, _, _) => s.min_width() == 0,
        }
    }
}

/// A tuple or enum of a number of elements around the lengths where their count gets longer.
fn wide_header(r: &mut Rng) -> Header {
    let at = [127, 128, 255, 256, 0x3fff, 0x4000, 0x7fff, 0x8000, 0xffff];
    let n = if r.bool() { *r.pick(&at) } else { {
        let bits = r.below(17);
        r.below(1 << bits)
    } };
    let e = leaf_header(r);
    let v = vec![e; n];
    let h = if r.bool() { Header::Tuple(v) } else { Header::Enum(v) };
    match r.below(4) {
        0 => Header::Array(Box::new(h)),
        1 => Header::Tuple(vec![h, leaf_header(r)]),
        _ => h,
    }
}

fn item(r: &mut Rng, small: bool) -> Result<Item, String> {
    let mut b = if small {
        20
    } else if r.pct(5) {
        6_000
    } else {
        120
    };
    Ok(match r.below(5) {
        0 if !small && r.pct(3) => Item::Head(wide_header(r)),
        0 => loop {
            let h = gen_header(r, 3);
            if encode_header(&h).is_some() {
                break Item::Head(h);
            }
        },
        1 | 2 => {
            let s = gen_inhabited(r, 3, ANY);
            let v = gen_val(r, &s, &mut b);
            Item::Typed(s, v)
        }
        3 => {
            // empty things leave no bytes: the neighbours have to stay in place
            let s = gen_leaf(r, ANY);
            let v = gen_val(r, &s, &mut b);
            Item::Typed(s, v)
        }
        _ => loop {
            let s = gen_inhabited(r, 3, HEADERABLE);
            if let Some(h) = dynamic::to_header(&s) {
                let s = dynamic::header_shape(&h);
                let v = gen_val(r, &s, &mut b).normalize_maps();
                let body = dynamic::to_body(&s, &v)?;
                break Item::Dyn(h, s, v, body);
            }
        },
    })
}

fn stream(c: &mut Case, n: usize) -> R {
    let small = n > 60;
    let mut items = Vec::new();
    for _ in 0..n {
        items.push(guard("wrap", || item(&mut c.rng, small))??);
    }
    // writing, through one long-lived serializer and others made on the way
    let sch = if c.rng.bool() { Sched::Whole } else { sched(&mut c.rng) };
    let w = Rc::new(RefCell::new(MonWriter::with(sch, None)));
    let mut one = Serializer::new(SharedW(w.clone()));
    let mut want = Vec::new();
    let mut ends = Vec::new();
    for it in &items {
        let fresh = c.rng.bool();
        let res = guard("write", || -> Result<(), String> {
            match it {
                Item::Head(h) => h.serialize(&mut SharedW(w.clone())).map_err(|e| format!("{:?}", e)),
                Item::Typed(s, v) => {
                    if fresh {
                        Typed(s, v).serialize(&mut Serializer::new(SharedW(w.clone())))
                    } else {
                        Typed(s, v).serialize(&mut one)
                    }
                    .map_err(|e| format!("{:?}", e))
                }
                Item::Dyn(_, _, _, b) => {
                    if fresh {
                        b.serialize(&mut Serializer::new(SharedW(w.clone())))
                    } else {
                        b.serialize(&mut one)
                    }
                    .map_err(|e| format!("{:?}", e))
                }
            }
        })?;
        if let Err(e) = res {
            vio!("writing {} into a stream fails: {}", it.brief(), e)
        }
        want.extend(it.bytes());
        ends.push(want.len());
    }
    drop(one);
    let got = std::mem::take(&mut w.borrow_mut().out);
    ensure!(got == want, "a stream of {} items is not the concatenation of their encodings: {}", n, diff(&got, &want));
    c.count("stream_bytes", want.len() as u64);
    c.count("items_written", n as u64);

    // reading, likewise
    let sch = if c.rng.bool() { Sched::Whole } else { sched(&mut c.rng) };
    let rd = Rc::new(RefCell::new(MonReader::with(&want, sch, None)));
    let mut src = SharedR(rd.clone());
    let mut one = Deserializer::new(&mut src);
    for (k, it) in items.iter().enumerate() {
        let fresh = c.rng.bool();
        read_item(it, &mut one, &SharedR(rd.clone()), fresh).map_err(|e| match e {
            Broken::Vio(m) => Broken::Vio(format!("item {} of {}: {}", k, n, m)),
            e => e,
        })?;
        let pos = rd.borrow().pos;
        ensure!(pos == ends[k], "after item {} of {} ({}) the reader is at {} instead of {}", k, n, it.brief(), pos, ends[k]);
        c.count("items_read", 1);
        c.evals(1);
    }
    // at the end: errors, no invented values, for anything that takes bytes
    for it in items.iter().rev().take(6) {
        if it.zero_width() {
            continue;
        }
        for fresh in [false, true] {
            match read_item(it, &mut one, &SharedR(rd.clone()), fresh) {
                Err(Broken::Vio(m)) if m.starts_with("refused") => c.count("end_of_stream_errors", 1),
                Err(e) => return Err(e),
                Ok(()) => vio!("at the end of the stream {} is read once more", it.brief()),
            }
            c.evals(1);
        }
    }
    c.seen_bytes(&want);
    c.sample(|| format!("{} items, {} bytes: {}", n, want.len(), hex(&want)));
    Ok(())
}

fn read_item(it: &Item, one: &mut Deserializer<SharedR>, src: &SharedR, fresh: bool) -> R {
    let mut src = src.clone();
    match it {
        Item::Head(h) => match guard("deserialize_header", || src.deserialize_header())? {
            Ok(g) => ensure!(g == *h, "{} is read as {:?}", it.brief(), g),
            Err(e) => vio!("refused: {}: {:?}", it.brief(), e),
        },
        Item::Typed(s, v) => {
            let got = guard("deserialize", || {
                if fresh {
                    Seed(s).deserialize(&mut Deserializer::new(&mut src))
                } else {
                    Seed(s).deserialize(one)
                }
            });
            // the lifetime of `one` ties to the reader; both arms return owned values
            match got? {
                Ok(g) => ensure!(g == *v, "{} is read as {}", it.brief(), g.brief()),
                Err(DeErr::Message(m)) if model_err(&m) => return Err(Broken::Harness(m)),
                Err(e) => vio!("refused: {}: {:?}", it.brief(), e),
            }
        }
        Item::Dyn(h, _, _, b) => {
            let got = guard("Body::deserialize", || {
                if fresh {
                    Body::deserialize(h, &mut Deserializer::new(&mut src))
                } else {
                    Body::deserialize(h, one)
                }
            })?;
            match got {
                Ok(g) => ensure!(dynamic::body_eq(&g, b), "{} is read as {}", it.brief(), clip(&format!("{:?}", g), 300)),
                Err(e) => vio!("refused: {}: {:?}", it.brief(), e),
            }
        }
    }
    Ok(())
}

pub fn c09(run: &Run) {
    run.section("streams", run.n(8_000, 300_000), |c| {
        let n = match c.rng.below(10) {
            0 => c.rng.range(40, 120),
            1..=3 => c.rng.range(8, 40),
            _ => c.rng.range(1, 8),
        };
        stream(c, n)
    });
    run.section("long-streams", run.n(16, 400), |c| {
        let n = c.rng.range(1000, 4000);
        stream(c, n)
    });
    // every pair of neighbours
    let kinds: Vec<Shape> = vec![
        Shape::Unit, Shape::Bool, Shape::U8, Shape::U16, Shape::U32, Shape::U64, Shape::I8, Shape::I16, Shape::I32, Shape::I64, Shape::F32,
        Shape::F64, Shape::Char, Shape::Str, Shape::Bytes, Shape::BigUint, Shape::BigInt, Shape::BigDec, Shape::Date, Shape::DateTime,
        Shape::Opt(Box::new(Shape::Str)), Shape::Seq(Box::new(Shape::Str)), Shape::Map(Box::new(Shape::BigDec)),
        Shape::Enum(vec![(0, Variant::Unit), (1, Variant::Newtype(Shape::Str)), (2, Variant::Struct(vec![Shape::BigInt, Shape::Bool]))]),
        Shape::Struct(vec![]), Shape::Struct(vec![Shape::BigDec, Shape::Str, Shape::Date]),
    ];
    let k = kinds.len();
    run.section("neighbours", (k * k) as u64 * run.n(4, 60), |c| {
        let i = c.idx as usize % (k * k);
        let (a, b) = (&kinds[i / k], &kinds[i % k]);
        let mut out = Vec::new();
        let lens = [0, 1, 3, 126, 127, 128, 129, 4096, 4097];
        let (la, lb) = (*c.rng.pick(&lens), *c.rng.pick(&lens));
        let va = super::typed::of_len(&mut c.rng, a, la);
        let vb = super::typed::of_len(&mut c.rng, b, lb);
        let r = guard("write", || {
            let mut s = Serializer::new(&mut out);
            Typed(a, &va).serialize(&mut s)?;
            Typed(b, &vb).serialize(&mut s)?;
            Typed(a, &va).serialize(&mut s)
        })?;
        ensure!(r.is_ok(), "writing fails: {:?}", r);
        let want = [encode(&va), encode(&vb), encode(&va)].concat();
        ensure!(out == want, "{} and {} side by side: {}", a.brief(), b.brief(), diff(&out, &want));
        let mut rd = MonReader::new(&want);
        let got = guard("read", || {
            let mut d = Deserializer::new(&mut rd);
            let x = Seed(a).deserialize(&mut d)?;
            let y = Seed(b).deserialize(&mut d)?;
            let z = Seed(a).deserialize(&mut d)?;
            Ok::<_, DeErr>((x, y, z))
        })?;
        match got {
            Ok((x, y, z)) => ensure!(x == va && y == vb && z == va, "{} and {} side by side come back as {} {} {}", va.brief(), vb.brief(), x.brief(), y.brief(), z.brief()),
            Err(e) => vio!("{} and {} side by side are refused: {:?}", va.brief(), vb.brief(), e),
        }
        ensure!(rd.pos == want.len(), "{} of {} bytes consumed", rd.pos, want.len());
        c.seen_bytes(&want);
        Ok(())
    });
}

// ---- C15 -----------------------------------------------------------------------------------

/// Serializes the first fields and then panics, as user code may.
struct Bomb<'a>(&'a Shape, &'a Val, usize);
impl<'a> Serialize for Bomb<'a> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut t = s.serialize_tuple(3)?;
        for _ in 0..self.2 {
            t.serialize_element(&Typed(self.0, self.1))?;
        }
        if self.2 > 0 {
            std::panic::panic_any(UserPanic);
        }
        t.serialize_element(&Fuse)?;
        t.end()
    }
}
struct Fuse;
impl Serialize for Fuse {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut q = s.serialize_seq(Some(5))?;
        q.serialize_element("before")?;
        std::panic::panic_any(UserPanic)
    }
}
struct UserPanic;

struct BombSeed;
impl<'de> DeserializeSeed<'de> for BombSeed {
    type Value = ();
    fn deserialize<D: serde::Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = ();
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("a bomb")
            }
            fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
                let _ = a.next_element::<String>()?;
                let _ = a.next_element::<u64>()?;
                std::panic::panic_any(UserPanic)
            }
        }
        d.deserialize_tuple(3, V)
    }
}

/// A value whose serialization performs other operations in the middle.
struct Inside<'a> {
    s: &'a Shape,
    v: &'a Val,
    f: &'a dyn Fn() -> R,
    out: &'a RefCell<R>,
}
impl<'a> Serialize for Inside<'a> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut t = s.serialize_tuple(3)?;
        t.serialize_element(&Typed(self.s, self.v))?;
        *self.out.borrow_mut() = (self.f)();
        t.serialize_element(&Typed(self.s, self.v))?;
        t.serialize_element(&7u64)?;
        t.end()
    }
}

struct BadKey(u8);
impl Serialize for BadKey {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut m = s.serialize_map(Some(2))?;
        m.serialize_entry("good", &self.0)?;
        m.serialize_entry(&(self.0 as u32), &self.0)?;
        m.end()
    }
}
struct Refuses;
impl Serialize for Refuses {
    fn serialize<S: serde::Serializer>(&self, _: S) -> Result<S::Ok, S::Error> {
        Err(serde::ser::Error::custom("user error"))
    }
}

/// A writer and a reader whose own code uses the library in the middle of a transfer, or panics.
enum Hook<'a> {
    Nothing,
    Panic,
    Run(&'a dyn Fn() -> R),
}
struct HookW<'a> {
    out: Vec<u8>,
    left: usize,
    hook: Hook<'a>,
    bad: R,
}
impl<'a> Write for HookW<'a> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.left == 0 {
            match self.hook {
                Hook::Nothing => {}
                Hook::Panic => std::panic::panic_any(UserPanic),
                Hook::Run(f) => {
                    if self.bad.is_ok() {
                        self.bad = f();
                    }
                }
            }
        }
        self.left = self.left.wrapping_sub(1);
        self.out.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
struct HookR<'a> {
    data: &'a [u8],
    left: usize,
    hook: Hook<'a>,
    bad: R,
}
impl<'a> Read for HookR<'a> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.left == 0 {
            match self.hook {
                Hook::Nothing => {}
                Hook::Panic => std::panic::panic_any(UserPanic),
                Hook::Run(f) => {
                    if self.bad.is_ok() {
                        self.bad = f();
                    }
                }
            }
        }
        self.left = self.left.wrapping_sub(1);
        self.data.read(b)
    }
}

/// Operations inside the transfers of another one, or a panic there; then the same ones plainly.
fn hooked(c: &mut Case, pool: &[(Shape, Val, Vec<u8>)], s: &Shape, v: &Val, enc: &[u8]) -> R {
    let inner = RefCell::new(c.rng.clone());
    c.rng.u64();
    let f = || -> R {
        let mut r = inner.borrow_mut();
        let (s2, v2, e2) = if r.bool() { (s, v, enc) } else { let p = &pool[r.below(pool.len())]; (&p.0, &p.1, &p.2[..]) };
        let g = ser_val(s2, v2)?;
        ensure!(g == e2, "serialize inside a transfer: {}", diff(&g, e2));
        let (g, _) = de_shape(s2, &mut MonReader::new(e2))?;
        ensure!(g.as_ref() == Ok(v2), "deserialize of {} inside a transfer gives {:?}", v2.brief(), g);
        Ok(())
    };
    let panics = c.rng.bool();
    let hook = || if panics { Hook::Panic } else { Hook::Run(&f) };
    // how many transfers there are
    let mut w = HookW { out: Vec::new(), left: usize::MAX, hook: Hook::Nothing, bad: Ok(()) };
    let _ = guard("serialize", || Typed(s, v).serialize(&mut Serializer::new(&mut w)).is_ok())?;
    let writes = usize::MAX - w.left;
    if writes > 0 {
        let mut w = HookW { out: Vec::new(), left: c.rng.below(writes), hook: hook(), bad: Ok(()) };
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Typed(s, v).serialize(&mut Serializer::new(&mut w)).is_ok()));
        match r {
            Err(p) if p.is::<UserPanic>() && panics => c.count("writer_panics", 1),
            Err(_) => vio!("serialize of {} through a writer that {}: {:?}", v.brief(), if panics { "panics" } else { "uses the library" }, take_panic()),
            Ok(ok) => {
                w.bad?;
                ensure!(!panics, "a panic of the writer is lost");
                ensure!(ok && w.out == enc, "serialize of {} through a writer that uses the library: {}", v.brief(), diff(&w.out, enc));
                c.count("operations_in_writes", 1);
            }
        }
    }
    let mut rd = HookR { data: enc, left: usize::MAX, hook: Hook::Nothing, bad: Ok(()) };
    let _ = guard("deserialize", || Seed(s).deserialize(&mut Deserializer::new(&mut rd)).is_ok())?;
    let reads = usize::MAX - rd.left;
    if reads > 0 {
        let mut rd = HookR { data: enc, left: c.rng.below(reads), hook: hook(), bad: Ok(()) };
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Seed(s).deserialize(&mut Deserializer::new(&mut rd))));
        match r {
            Err(p) if p.is::<UserPanic>() && panics => c.count("reader_panics", 1),
            Err(_) => vio!("deserialize of {} through a reader that {}: {:?}", v.brief(), if panics { "panics" } else { "uses the library" }, take_panic()),
            Ok(g) => {
                rd.bad?;
                ensure!(!panics, "a panic of the reader is lost");
                ensure!(g.as_ref() == Ok(v) && rd.data.is_empty(), "deserialize of {} through a reader that uses the library gives {:?}", v.brief(), g);
                c.count("operations_in_reads", 1);
            }
        }
    }
    let _ = take_panic();
    // and plainly
    let g = ser_val(s, v)?;
    ensure!(g == enc, "serialize after a disturbed one: {}", diff(&g, enc));
    let (g, _) = de_shape(s, &mut MonReader::new(enc))?;
    ensure!(g.as_ref() == Ok(v), "deserialize of {} after a disturbed one gives {:?}", v.brief(), g);
    Ok(())
}

/// The same failing operation on one thread, far past any 16-bit count, then the good one.
fn failures(c: &mut Case, s: &Shape, mode: u64, n: u64) -> R {
    let mut b = 14;
    let mut v = gen_val(&mut c.rng, s, &mut b);
    for _ in 0..50 {
        // something with content
        if encode(&v).len() > 1 {
            break;
        }
        let mut b = 14;
        v = gen_val(&mut c.rng, s, &mut b);
    }
    let enc = encode(&v);
    let h = dynamic::to_header(s);
    if enc.is_empty() {
        return Ok(());
    }
    let bad = guard("failing operations", || {
        for k in 0..n {
            let p = (k as usize) % enc.len();
            match mode {
                0 => {
                    let mut rd = &enc[..p];
                    if Seed(s).deserialize(&mut Deserializer::new(&mut rd)).is_ok() {
                        return Some((k, "truncated bytes are accepted"));
                    }
                }
                1 => {
                    let mut out = [0u8; 64];
                    let room = p.min(64);
                    let mut w = &mut out[..room];
                    if enc.len() > room && Typed(s, &v).serialize(&mut Serializer::new(&mut w)).is_ok() {
                        return Some((k, "a full writer goes unnoticed"));
                    }
                }
                2 => {
                    if let Some(h) = &h {
                        let mut rd = &enc[..p];
                        if Body::deserialize(h, &mut Deserializer::new(&mut rd)).is_ok() {
                            return Some((k, "a truncated body is accepted"));
                        }
                    }
                }
                3 => {
                    if let Some(h) = &h {
                        let hb = encode_header(h).unwrap();
                        let p = (k as usize) % hb.len();
                        if (&hb[..p]).deserialize_header().is_ok() {
                            return Some((k, "a truncated header is accepted"));
                        }
                        let mut out = [0u8; 64];
                        let mut w = &mut out[..p.min(64)];
                        if h.serialize(&mut w).is_ok() {
                            return Some((k, "a full writer goes unnoticed by a header"));
                        }
                    }
                }
                4 => {
                    // a panicking writer; rarer, it unwinds
                    let mut w = HookW { out: Vec::new(), left: p % 4, hook: Hook::Panic, bad: Ok(()) };
                    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Typed(s, &v).serialize(&mut Serializer::new(&mut w)).is_ok()));
                }
                _ => {
                    let mut rd = HookR { data: &enc, left: p % 4, hook: Hook::Panic, bad: Ok(()) };
                    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Seed(s).deserialize(&mut Deserializer::new(&mut rd)).is_ok()));
                }
            }
        }
        None
    })?;
    let _ = take_panic();
    if let Some((k, m)) = bad {
        vio!("failing operation {} on {}: {}", k, v.brief(), m)
    }
    let g = ser_val(s, &v)?;
    ensure!(g == enc, "serialize after {} failed operations: {}", n, diff(&g, &enc));
    let (g, _) = de_shape(s, &mut MonReader::new(&enc))?;
    ensure!(g.as_ref() == Ok(&v), "deserialize of {} after {} failed operations gives {:?}", v.brief(), n, g);
    if let Some(h) = &h {
        let (g, _) = de_body(h, &mut MonReader::new(&enc))?;
        match g {
            Ok(b) => ensure!(validate(&b, h)?, "a body decoded after {} failed operations does not validate", n),
            Err(e) => vio!("body of {} is refused after {} failed operations: {:?}", v.brief(), n, e),
        }
        let want = encode_header(h).unwrap();
        match ser_header(h)? {
            Ok(g) => ensure!(g == want, "header after {} failed operations: {}", n, diff(&g, &want)),
            Err(e) => vio!("header fails after {} failed operations: {:?}", n, e),
        }
        let (g, _) = de_header(&mut MonReader::new(&want))?;
        ensure!(g.as_ref().ok() == Some(h), "header {} is read as {:?} after {} failed operations", hex(&want), g, n);
    }
    c.count("failed_operations", n);
    c.max("most_failures_in_a_row", n);
    c.evals(n);
    c.seen(mix(mode, hash_bytes(&enc)));
    Ok(())
}

/// Input and output that stay with one deserializer and one serializer, and are set from outside.
struct Tape<'a> {
    data: &'a [u8],
    pos: &'a Cell<usize>,
    /// where it ends, and whether in a panic
    end: &'a Cell<(usize, bool)>,
}

impl Read for Tape<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let (end, panics) = self.end.get();
        let n = buf.len().min(end - self.pos.get());
        if n == 0 && panics && !buf.is_empty() {
            std::panic::panic_any(UserPanic)
        }
        buf[..n].copy_from_slice(&self.data[self.pos.get()..self.pos.get() + n]);
        self.pos.set(self.pos.get() + n);
        Ok(n)
    }
}

struct TapeW<'a> {
    out: &'a RefCell<Vec<u8>>,
    end: &'a Cell<(usize, bool)>,
}

impl Write for TapeW<'_> {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let (end, panics) = self.end.get();
        let mut out = self.out.borrow_mut();
        let n = buf.len().min(end - out.len());
        if n == 0 && panics && !buf.is_empty() {
            std::panic::panic_any(UserPanic)
        }
        out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Very many failures on one serializer and one deserializer, and values that are fine in between.
fn failing_stream(c: &mut Case, s: &Shape, mode: u64, n: u64) -> R {
    let mut v = gen_val(&mut c.rng, s, &mut 14);
    for _ in 0..200 {
        if (2..60).contains(&encode(&v).len()) {
            break;
        }
        v = gen_val(&mut c.rng, s, &mut 14);
    }
    let enc = encode(&v);
    let h = dynamic::to_header(s);
    let len = enc.len();
    if len == 0 {
        return Ok(());
    }
    fuse::arm(u64::MAX, 0, "");
    let w = guard("serialize", || Typed(s, &v).serialize(&mut Serializer::new(&mut MonWriter::new())).is_ok());
    let wsteps = fuse::disarm().passed;
    fuse::arm(u64::MAX, 0, "");
    let r = de_shape(s, &mut MonReader::new(&enc));
    let rsteps = fuse::disarm().passed;
    ensure!(w? && r?.0.as_ref() == Ok(&v), "{} is not written or read", v.brief());
    let caught = |f: &mut dyn FnMut() -> bool| std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or(false);
    let (out, room) = (RefCell::new(Vec::new()), Cell::new((usize::MAX, false)));
    let (pos, end) = (Cell::new(0), Cell::new((len, false)));
    let bad = guard("operations on one stream", || {
        let mut ser = Serializer::new(TapeW { out: &out, end: &room });
        let mut tape = Tape { data: &enc, pos: &pos, end: &end };
        let mut d = Deserializer::new(&mut tape);
        for k in 0..=n {
            let p = (k % len as u64) as usize;
            out.borrow_mut().clear();
            pos.set(0);
            match mode {
                // user code refuses
                0 => {
                    fuse::arm(k % wsteps, 0, "no");
                    let w = Typed(s, &v).serialize(&mut ser).is_ok();
                    fuse::arm(k % rsteps, 0, "no");
                    let r = Seed(s).deserialize(&mut d).is_ok();
                    fuse::disarm();
                    if w || r {
                        return Some((k, "an error of user code is absorbed"));
                    }
                }
                // the bytes, or the room for them, end
                1 => {
                    room.set((p, false));
                    end.set((p, false));
                    if Typed(s, &v).serialize(&mut ser).is_ok() {
                        return Some((k, "a full writer goes unnoticed"));
                    }
                    if Seed(s).deserialize(&mut d).is_ok() {
                        return Some((k, "truncated bytes are accepted"));
                    }
                }
                // the same, in a panic
                2 => {
                    room.set((p, true));
                    end.set((p, true));
                    if caught(&mut || Typed(s, &v).serialize(&mut ser).is_ok()) | caught(&mut || Seed(s).deserialize(&mut d).is_ok()) {
                        return Some((k, "a panic is lost"));
                    }
                }
                // a dynamic body whose bytes end
                _ => {
                    end.set((p, false));
                    if let Some(h) = &h {
                        if Body::deserialize(h, &mut d).is_ok() {
                            return Some((k, "a truncated body is accepted"));
                        }
                    }
                }
            }
            // and then a value that is fine
            if k % 997 == 0 || k == n {
                room.set((usize::MAX, false));
                end.set((len, false));
                out.borrow_mut().clear();
                pos.set(0);
                if Typed(s, &v).serialize(&mut ser).is_err() || *out.borrow() != enc {
                    return Some((k, "the serializer goes on differently"));
                }
                if Seed(s).deserialize(&mut d).as_ref() != Ok(&v) || pos.get() != len {
                    return Some((k, "the deserializer goes on differently"));
                }
                if let Some(h) = &h {
                    pos.set(0);
                    if !Body::deserialize(h, &mut d).map_or(false, |b| b.validate(h)) || pos.get() != len {
                        return Some((k, "the deserializer reads another body"));
                    }
                }
            }
        }
        None
    });
    fuse::disarm();
    let _ = take_panic();
    if let Some((k, m)) = bad? {
        vio!("after {} failures on one stream of {}: {}", k, v.brief(), m)
    }
    c.count("failed_operations", n);
    c.max("most_failures_on_one_stream", n);
    c.evals(2 * n);
    c.seen(mix(mode, hash_bytes(&enc)));
    Ok(())
}

/// One operation with its history-free expectation.
fn op(c: &mut Case, pool: &[(Shape, Val, Vec<u8>)], depth: usize) -> R {
    let k = c.rng.below(pool.len());
    let (s, v, enc) = &pool[k];
    match c.rng.below(if depth > 0 { 8 } else { 16 }) {
        0 | 1 => {
            let got = ser_val(s, v)?;
            ensure!(got == *enc, "serialize of {}: {}", v.brief(), diff(&got, enc));
        }
        2 | 3 => {
            let mut rd = MonReader::new(enc);
            let (got, _) = de_shape(s, &mut rd)?;
            ensure!(got == Ok(v.clone()), "deserialize of {} gives {:?}", v.brief(), got);
            ensure!(rd.pos == enc.len(), "deserialize of {} consumes {} of {}", v.brief(), rd.pos, enc.len());
        }
        4 => {
            if s.has_zero_width_elements() {
                return Ok(());
            }
            let b = gen_hostile(&mut c.rng, s, 100);
            let want = decode(s, &b);
            let mut rd = MonReader::new(&b);
            let (got, _) = de_shape(s, &mut rd)?;
            agree("hostile decode", s, &b, &got, rd.pos, &want)?;
        }
        5 => {
            if let Some(h) = dynamic::to_header(s) {
                let want = encode_header(&h).unwrap();
                match ser_header(&h)? {
                    Ok(g) => ensure!(g == want, "header: {}", diff(&g, &want)),
                    Err(e) => vio!("header fails: {:?}", e),
                }
                let (g, _) = de_header(&mut MonReader::new(&want))?;
                ensure!(g.as_ref().ok() == Some(&h), "header {} is read as {:?}", hex(&want), g);
                let cut = c.rng.below(want.len());
                let (g, _) = de_header(&mut MonReader::new(&want[..cut]))?;
                ensure!(g.is_err(), "truncated header is read");
            }
        }
        6 => {
            if let Some(h) = dynamic::to_header(s) {
                let mut rd = MonReader::new(enc);
                let (g, _) = de_body(&h, &mut rd)?;
                match g {
                    Ok(b) => {
                        ensure!(validate(&b, &h)?, "decoded body does not validate");
                        let other = leaf_header(&mut c.rng);
                        ensure!(validate(&b, &other)? == dynamic::conforms(&b, &other), "validate against another header is wrong");
                        let want = guard("wrap", || dynamic::to_body(s, &v.normalize_maps()))??;
                        ensure!(dynamic::body_eq(&b, &want), "body of {} differs", v.brief());
                    }
                    Err(e) => vio!("body of {} is refused: {:?}", v.brief(), e),
                }
            }
        }
        7 => {
            // a failing writer
            if !enc.is_empty() {
                let p = c.rng.below(enc.len());
                let mut w = MonWriter::with(Sched::Whole, Some((p, Fault::Kind(std::io::ErrorKind::Other))));
                let r = guard("serialize", || Typed(s, v).serialize(&mut Serializer::new(&mut w)))?;
                ensure!(r.is_err() && enc.starts_with(&w.out), "write fault at {}: {:?}", p, r);
            }
        }
        8 => {
            // errors out of the middle of a serialization, then the same serializer again
            let mut out = Vec::new();
            let r = guard("serialize", || {
                let mut ser = Serializer::new(&mut out);
                let a = BadKey(200).serialize(&mut ser).is_err();
                let b = Some(Refuses).serialize(&mut ser).is_err();
                let d = 5i128.serialize(&mut ser).is_err();
                (a, b, d)
            })?;
            ensure!(r == (true, true, true), "refused requests succeed: {:?}", r);
            let n = out.len();
            let r = guard("serialize", || Typed(s, v).serialize(&mut Serializer::new(&mut out)).is_ok())?;
            ensure!(r && out[n..] == enc[..], "a serializer after refused requests writes {} instead of {}", hex(&out[n..]), hex(enc));
        }
        9 => {
            // the same serializer goes on after an error of the user's
            let mut out = Vec::new();
            let mut mark = 0;
            let r = guard("serialize", || {
                let rc = Rc::new(RefCell::new(MonWriter::new()));
                let mut ser = Serializer::new(SharedW(rc.clone()));
                let e = Refuses.serialize(&mut ser).is_err();
                let e2 = BadKey(7).serialize(&mut ser).is_err();
                mark = rc.borrow().out.len();
                let ok = Typed(s, v).serialize(&mut ser).is_ok();
                drop(ser);
                out = std::mem::take(&mut rc.borrow_mut().out);
                e && e2 && ok
            })?;
            ensure!(r && out[mark..] == enc[..], "a reused serializer writes {} instead of {}", hex(&out[mark..]), hex(enc));
        }
        10 => {
            // user code panics inside a serialization
            let n = c.rng.below(3);
            let mut out = Vec::new();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let mut ser = Serializer::new(&mut out);
                let _ = Bomb(s, v, n).serialize(&mut ser);
            }));
            match r {
                Err(p) if p.is::<UserPanic>() => c.count("user_panics", 1),
                _ => vio!("a panic of user code in serialization is lost or replaced"),
            }
            let _ = take_panic();
        }
        11 => {
            // ... and inside a deserialization
            let mut b = encode(&Val::Tuple(vec![Val::Str(gen_string(&mut c.rng, 20)), Val::U64(9), Val::Bool(true)]));
            b.push(1);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let mut rd = b.as_slice();
                let _ = BombSeed.deserialize(&mut Deserializer::new(&mut rd));
            }));
            match r {
                Err(p) if p.is::<UserPanic>() => c.count("user_panics", 1),
                _ => vio!("a panic of user code in deserialization is lost or replaced"),
            }
            let _ = take_panic();
        }
        12 => {
            // other operations in the middle of a serialization
            let cell = RefCell::new(Ok(()));
            let inner = RefCell::new(c.rng.clone());
            c.rng.u64();
            let f = || -> R {
                let mut r = inner.borrow_mut();
                for _ in 0..3 {
                    let (s2, v2, e2) = &pool[r.below(pool.len())];
                    let g = ser_val(s2, v2)?;
                    ensure!(g == *e2, "nested serialize: {}", diff(&g, e2));
                    let (g, _) = de_shape(s2, &mut MonReader::new(e2))?;
                    ensure!(g == Ok(v2.clone()), "nested deserialize of {} gives {:?}", v2.brief(), g);
                }
                Ok(())
            };
            let ins = Inside { s, v, f: &f, out: &cell };
            let mut want = [&enc[..], &enc[..]].concat();
            put_varint(&mut want, 7, 64);
            let got = ser(&ins)?;
            cell.into_inner()?;
            match got {
                Ok(g) => ensure!(g == want, "serialization with operations inside: {}", diff(&g, &want)),
                Err(e) => vio!("serialization with operations inside fails: {:?}", e),
            }
            c.count("nested", 1);
        }
        13 | 14 => hooked(c, pool, s, v, enc)?,
        _ => {
            // two serializers and two deserializers in alternation
            let (s2, v2, e2) = &pool[c.rng.below(pool.len())];
            let (mut a, mut b) = (Vec::new(), Vec::new());
            let order: Vec<bool> = (0..6).map(|_| c.rng.bool()).collect();
            let r = guard("serialize", || {
                let mut sa = Serializer::new(&mut a);
                let mut sb = Serializer::new(&mut b);
                order.iter().all(|x| if *x { Typed(s, v).serialize(&mut sa).is_ok() } else { Typed(s2, v2).serialize(&mut sb).is_ok() })
            })?;
            let na = order.iter().filter(|x| **x).count();
            ensure!(r && a == enc.repeat(na) && b == e2.repeat(6 - na), "two serializers in alternation disturb each other");
            let (mut ra, mut rb) = (a.as_slice(), b.as_slice());
            let ok = guard("deserialize", || {
                let mut da = Deserializer::new(&mut ra);
                let mut db = Deserializer::new(&mut rb);
                order.iter().all(|x| {
                    if *x {
                        Seed(s).deserialize(&mut da).as_ref() == Ok(v)
                    } else {
                        Seed(s2).deserialize(&mut db).as_ref() == Ok(v2)
                    }
                })
            })?;
            ensure!(ok && ra.is_empty() && rb.is_empty(), "two deserializers in alternation disturb each other");
            c.count("interleaved", 1);
        }
    }
    c.count("operations", 1);
    c.evals(1);
    Ok(())
}

fn pool(r: &mut Rng, n: usize, budget: usize) -> Vec<(Shape, Val, Vec<u8>)> {
    (0..n)
        .map(|_| {
            let s = gen_inhabited(r, 3, ANY);
            let mut b = if r.pct(10) { 40 * budget } else { budget };
            let v = gen_val(r, &s, &mut b);
            let e = encode(&v);
            (s, v, e)
        })
        .collect()
}

pub fn history(c: &mut Case) -> R {
    let p = pool(&mut c.rng, 12, 60);
    let n = c.rng.range(20, 200);
    let h0 = c.rng.u64();
    for k in 0..n {
        op(c, &p, 0).map_err(|e| match e {
            Broken::Vio(m) => Broken::Vio(format!("operation {} of a history: {}", k, m)),
            e => e,
        })?;
    }
    c.seen(h0);
    c.sample(|| format!("{} operations over {} values such as {}", n, p.len(), p[0].1.brief()));
    Ok(())
}

/// The same places in memory, used again and again with other contents: whatever is remembered by
/// address or by length has to notice.
fn in_place(c: &mut Case) -> R {
    use super::body::{back, mutate_body, mutate_header, pair, verdict};
    let wide = c.rng.pct(60);
    let (mut h, mut b) = if wide {
        // one long container, so that the address of its elements stays what it is
        let el = gen_header(&mut c.rng, 1);
        let s = dynamic::header_shape(&el);
        if !inhabited(&s) {
            return Ok(());
        }
        let n = c.rng.range(2, 80);
        let mut items = vec![];
        for _ in 0..n {
            let mut budget = 12;
            let v = gen_val(&mut c.rng, &s, &mut budget).normalize_maps();
            items.push(guard("wrap", || dynamic::to_body(&s, &v))??);
        }
        match c.rng.below(4) {
            0 | 1 => (Header::Array(Box::new(el)), Body::Array(items)),
            2 => (Header::Tuple(vec![el; n]), Body::Tuple(items)),
            _ => (Header::Map(Box::new(el)), Body::Map(items.into_iter().enumerate().map(|(i, b)| (format!("{:03}", i), b)).collect())),
        }
    } else {
        let d = c.rng.range(0, 4);
        guard("wrap", || pair(&mut c.rng, d, 150))??
    };
    let (h0, b0) = (h.clone(), b.clone());
    for _ in 0..c.rng.range(3, 20) {
        for _ in 0..c.rng.range(1, 3) {
            if verdict(c, &b, &h)? && c.rng.bool() {
                back(c, &b, &h)?;
            }
        }
        match c.rng.below(8) {
            0 => mutate_header(&mut c.rng, &mut h),
            1 => h.clone_from(&h0),
            2 => b.clone_from(&b0),
            3 => {
                h.clone_from(&h0);
                b.clone_from(&b0);
            }
            // one element and nothing else: neither length nor address changes
            4 | 5 => {
                let n = c.rng.u32() as usize;
                let x = super::body::random_body(&mut c.rng, 1)?;
                match &mut b {
                    Body::Array(v) | Body::Tuple(v) if !v.is_empty() => {
                        let n = n % v.len();
                        v[n] = x
                    }
                    Body::Map(m) if !m.is_empty() => {
                        let n = n % m.len();
                        *m.values_mut().nth(n).unwrap() = x
                    }
                    b => mutate_body(&mut c.rng, b)?,
                }
            }
            _ => mutate_body(&mut c.rng, &mut b)?,
        }
    }
    // one buffer
    let s = gen_inhabited(&mut c.rng, 2, ANY);
    if !s.has_zero_width_elements() {
        let mut budget = 60;
        let v = gen_val(&mut c.rng, &s, &mut budget);
        let mut buf = encode(&v);
        let whole = buf.clone();
        for _ in 0..c.rng.range(2, 12) {
            let want = decode(&s, &buf);
            let mut rd = MonReader::new(&buf);
            let (got, _) = de_shape(&s, &mut rd)?;
            let used = rd.pos;
            agree("one buffer, changed in place", &s, &buf, &got, used, &want)?;
            c.evals(1);
            if buf.is_empty() || c.rng.pct(30) {
                buf.copy_from_slice(&whole);
            } else {
                let i = c.rng.below(buf.len());
                buf[i] = if c.rng.bool() { c.rng.u8() } else { buf[i] ^ 1 << c.rng.below(8) };
            }
        }
    }
    c.count("in_place", 1);
    let x = c.rng.u64();
    c.seen(x);
    Ok(())
}

pub fn c15(run: &Run) {
    run.section("in-place", run.n(6_000, 200_000), in_place);
    // all workers run at once: each history shares the process with seven others
    run.section("histories", run.n(1_200, 40_000), history);
    // long histories on one thread: counters that wrap, caches that fill up
    run.section("long", run.n(8, 64), |c| {
        let p = pool(&mut c.rng, 40, 15);
        let n = if c.thorough() { 400_000 } else { 70_000 };
        for k in 0..n {
            op(c, &p, if k % 50 == 0 { 0 } else { 1 }).map_err(|e| match e {
                Broken::Vio(m) => Broken::Vio(format!("operation {} of a long history: {}", k, m)),
                e => e,
            })?;
        }
        c.max("longest_history", n);
        let h = c.rng.u64();
        c.seen(h);
        Ok(())
    });
    // many operations of one kind on the same small value, far past any counter of 16 bits
    run.section("repeated", 24, |c| {
        let kinds = [
            Shape::Str, Shape::Bytes, Shape::U64, Shape::I64, Shape::Opt(Box::new(Shape::Bool)), Shape::Seq(Box::new(Shape::Str)),
            Shape::Map(Box::new(Shape::U8)), Shape::BigDec, Shape::BigInt, Shape::Date, Shape::DateTime, Shape::Char,
        ];
        let s = &kinds[c.idx as usize % kinds.len()];
        // the second half of the cases are of more than 128 bytes where there are such
        let long = c.idx >= kinds.len() as u64;
        let (v, e) = (0..40)
            .map(|_| {
                let mut b = if long { 200 } else { 12 };
                let v = gen_val(&mut c.rng, s, &mut b);
                let e = encode(&v);
                (v, e)
            })
            .min_by_key(|x| if !long { 0 } else if x.1.len() < 130 { 2000 - x.1.len() } else { x.1.len() })
            .unwrap();
        c.max("longest_repeated", e.len() as u64);
        let n = if c.thorough() { 20_000_000 } else { 1_200_000 };
        let mut out = Vec::new();
        let reuse = c.idx % 2 == 0;
        let bad = guard("repeated", || {
            let rc = Rc::new(RefCell::new(MonWriter::new()));
            let mut ser = Serializer::new(SharedW(rc.clone()));
            for k in 0..n {
                if reuse {
                    rc.borrow_mut().out.clear();
                    if Typed(s, &v).serialize(&mut ser).is_err() || rc.borrow().out != e {
                        return Some((k, "serialize"));
                    }
                } else {
                    out.clear();
                    if Typed(s, &v).serialize(&mut Serializer::new(&mut out)).is_err() || out != e {
                        return Some((k, "serialize"));
                    }
                }
                let mut rd = e.as_slice();
                if Seed(s).deserialize(&mut Deserializer::new(&mut rd)).as_ref() != Ok(&v) || !rd.is_empty() {
                    return Some((k, "deserialize"));
                }
            }
            None
        })?;
        if let Some((k, w)) = bad {
            vio!("{} number {} of the same value {} gives another result", w, k, v.brief())
        }
        c.evals(2 * n);
        c.max("most_repetitions", n);
        c.seen(mix(c.idx, hash_bytes(&e)));
        Ok(())
    });
    // the same for headers and dynamic values
    run.section("repeated-dynamic", 24, |c| {
        let h = match c.idx {
            0 => Header::Tuple(vec![Header::String, Header::Optional(Box::new(Header::UInt16))]),
            1 => Header::Array(Box::new(Header::Int64)),
            2 => Header::Map(Box::new(Header::String)),
            3 => Header::Enum(vec![Header::Unit, Header::BigDecimal, Header::Binary]),
            4 => Header::Date,
            5 => Header::DateTime,
            _ => gen_header(&mut c.rng, 1),
        };
        let s = dynamic::header_shape(&h);
        if !inhabited(&s) {
            return Ok(());
        }
        let hb = encode_header(&h).unwrap();
        let mut b = if c.idx % 2 == 0 { 3 } else { 60 };
        let v = gen_val(&mut c.rng, &s, &mut b).normalize_maps();
        let e = encode(&v);
        let body = guard("wrap", || dynamic::to_body(&s, &v))??;
        let weight = (e.len() + hb.len()) as u64 / 40 + 1;
        let n = if c.thorough() { 20_000_000 } else { 1_200_000 } / weight.min(8);
        let mut out = Vec::new();
        let bad = guard("repeated", || {
            for k in 0..n {
                out.clear();
                if h.serialize(&mut out).is_err() || out != hb {
                    return Some((k, "writing the header"));
                }
                let mut rd = hb.as_slice();
                if rd.deserialize_header().ok().as_ref() != Some(&h) || !rd.is_empty() {
                    return Some((k, "reading the header"));
                }
                out.clear();
                if body.serialize(&mut Serializer::new(&mut out)).is_err() || out != e {
                    return Some((k, "writing the value"));
                }
                let mut rd = e.as_slice();
                match Body::deserialize(&h, &mut Deserializer::new(&mut rd)) {
                    Ok(b) if rd.is_empty() && dynamic::body_eq(&b, &body) && b.validate(&h) => {}
                    _ => return Some((k, "reading the value")),
                }
            }
            None
        })?;
        if let Some((k, w)) = bad {
            vio!("{} number {} gives another result: {} under {:?}", w, k, v.brief(), h)
        }
        c.evals(5 * n);
        c.max("most_repetitions", n);
        c.seen(mix(c.idx, hash_bytes(&hb)));
        Ok(())
    });
    // failures of one kind, far past any 16-bit count
    let kinds = [
        Shape::Str, Shape::Bytes, Shape::Bool, Shape::Char, Shape::U16, Shape::U32, Shape::U64, Shape::I16, Shape::I32, Shape::I64, Shape::F32,
        Shape::F64, Shape::BigUint, Shape::BigInt, Shape::BigDec, Shape::Date, Shape::DateTime, Shape::Opt(Box::new(Shape::U32)),
        Shape::Seq(Box::new(Shape::Str)), Shape::Map(Box::new(Shape::U16)), Shape::Tuple(vec![Shape::U16, Shape::Str]),
        Shape::TupleStruct(vec![Shape::Str, Shape::U64]), Shape::Newtype(Box::new(Shape::U32)), Shape::Struct(vec![Shape::Bool, Shape::Str]),
        Shape::Enum(vec![(0, Variant::Unit), (1, Variant::Newtype(Shape::Str))]), Shape::Enum(vec![(0, Variant::Tuple(vec![Shape::U8, Shape::U32]))]),
        Shape::Enum(vec![(0, Variant::Struct(vec![Shape::Str, Shape::U32]))]), Shape::Opt(Box::new(Shape::Opt(Box::new(Shape::Str)))),
        Shape::Seq(Box::new(Shape::Seq(Box::new(Shape::U16)))), Shape::Map(Box::new(Shape::Map(Box::new(Shape::U8)))),
    ];
    let m = kinds.len() as u64;
    run.section("failures", m * 6 * if run.cfg.tier == Tier::Thorough { 6 } else { 1 }, |c| {
        let (i, mode) = (c.idx % m, (c.idx / m) % 6);
        let n = match (mode, c.thorough()) {
            (4 | 5, false) => 70_000,
            (4 | 5, true) => 700_000,
            (_, false) => 300_000,
            (_, true) => 3_000_000,
        };
        failures(c, &kinds[i as usize], mode, n)
    });
    // the same on one serializer and one deserializer
    let nest: Vec<Shape> = {
        let bx = |s: Shape| Box::new(s);
        let text = || Shape::Struct(vec![Shape::Str, Shape::U16]);
        vec![
            Shape::Opt(bx(Shape::Opt(bx(Shape::U32)))), Shape::Seq(bx(Shape::Seq(bx(Shape::U8)))), Shape::Map(bx(Shape::Bytes)),
            Shape::Newtype(bx(text())), Shape::Tuple(vec![text(), Shape::BigDec]), Shape::TupleStruct(vec![Shape::I64, Shape::DateTime]),
            Shape::Seq(bx(text())), Shape::Enum(vec![(0, Variant::Newtype(Shape::Str))]),
            Shape::Enum(vec![(0, Variant::Tuple(vec![Shape::Str, Shape::F32]))]),
            Shape::Enum(vec![(0, Variant::Struct(vec![Shape::Char, Shape::Opt(bx(Shape::Date))]))]),
            Shape::Struct(vec![Shape::Seq(bx(Shape::Map(bx(Shape::U8)))), Shape::BigInt, Shape::BigUint]),
        ]
    };
    run.section("one-stream-failing", nest.len() as u64 * 4 * if run.thorough() { 6 } else { 1 }, |c| {
        let k = nest.len() as u64;
        let (s, mode) = (&nest[(c.idx % k) as usize], c.idx / k % 4);
        let n = match (mode, c.thorough()) {
            (2, false) => 70_000,
            (2, true) => 700_000,
            (_, false) => 270_000,
            (_, true) => 3_000_000,
        };
        failing_stream(c, s, mode, n)
    });
    // one stream of values through one serializer and one deserializer, far past any 16-bit count
    run.section("one-stream", 12, |c| {
        let kinds = [
            Shape::Str, Shape::Bytes, Shape::U16, Shape::I64, Shape::Opt(Box::new(Shape::U8)), Shape::Seq(Box::new(Shape::Bool)),
            Shape::Map(Box::new(Shape::Str)), Shape::BigDec, Shape::Struct(vec![Shape::Bool, Shape::Str]), Shape::Date,
            Shape::Enum(vec![(0, Variant::Unit), (1, Variant::Newtype(Shape::Str))]), Shape::Char,
        ];
        let s = &kinds[c.idx as usize % kinds.len()];
        let vals: Vec<Val> = (0..64)
            .map(|_| {
                let mut b = 8;
                gen_val(&mut c.rng, s, &mut b)
            })
            .collect();
        let n = if c.thorough() { 5_000_000usize } else { 1_100_000 };
        let mut out = Vec::new();
        let r = guard("serialize", || {
            let mut ser = Serializer::new(&mut out);
            (0..n).all(|k| Typed(s, &vals[k % 64]).serialize(&mut ser).is_ok())
        })?;
        ensure!(r, "a long stream fails");
        let mut want = Vec::new();
        for k in 0..n {
            encode_into(&vals[k % 64], &mut want);
        }
        ensure!(out == want, "a long stream through one serializer: {}", diff(&out, &want));
        let mut rd = out.as_slice();
        let bad = guard("deserialize", || {
            let mut d = Deserializer::new(&mut rd);
            (0..n).find(|k| Seed(s).deserialize(&mut d).as_ref() != Ok(&vals[k % 64]))
        })?;
        ensure!(bad.is_none() && rd.is_empty(), "value {:?} of a long stream through one deserializer differs", bad);
        c.evals(2 * n as u64);
        c.seen_bytes(&want[..want.len().min(1000)]);
        Ok(())
    });
    // all on the same values
    threads(run, "threads", run.n(40, 1_000), |r| r);
}

/// Eight threads, started together, in step.
pub fn threads(run: &Run, name: &str, cases: u64, judge: fn(R) -> R) {
    run.section(name, cases, |c| {
        let p = pool(&mut c.rng, 6, 40);
        let n = 8;
        let barrier = std::sync::Barrier::new(n);
        let base = c.rng.u64();
        let run = c.run;
        let results: Vec<R<(u64, u64)>> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..n)
                .map(|t| {
                    let (p, barrier) = (&p, &barrier);
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(sc, move || {
                            let mut local = Case::detached(run, mix(base, t as u64));
                            let mut r = Ok(());
                            let mut pauses = 0;
                            for round in 0..60u64 {
                                barrier.wait();
                                shake::start(if round % 2 == 0 { 0 } else { mix(base, round << 8 | t as u64) | 1 });
                                for _ in 0..4 {
                                    if r.is_ok() {
                                        r = judge(op(&mut local, p, usize::from(round % 3 == 0)));
                                    }
                                }
                                pauses += shake::pauses();
                            }
                            shake::start(0);
                            r.map(|_| (240, pauses))
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(Broken::Harness("thread panicked".into())))).collect()
        });
        for r in results {
            let (k, pauses) = r.map_err(|e| match e {
                Broken::Vio(m) => Broken::Vio(format!("on one of {} threads: {}", n, m)),
                e => e,
            })?;
            c.count("operations_in_step", k);
            c.count("pauses_amid_operations", pauses);
            c.evals(k);
        }
        c.count("thread_starts", n as u64);
        c.seen(base);
        Ok(())
    });
}
