//! C10 I/O failures, C18 delivery.
use super::typed::some_bytes;
use super::util::*;
use crate::corpus;
use crate::mon::*;
use crate::{ensure, vio};
use dlhn::{Deserializer, Header, Serializer};
use refmodel::*;
use serde::de::DeserializeSeed;
use serde::Serialize;
use std::io::{ErrorKind, Read};

/// Every kind of error there is, apart from `Interrupted`, which is no failure.
const KINDS: &[ErrorKind] = &[
    ErrorKind::NotFound,
    ErrorKind::PermissionDenied,
    ErrorKind::ConnectionRefused,
    ErrorKind::ConnectionReset,
    ErrorKind::HostUnreachable,
    ErrorKind::NetworkUnreachable,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected,
    ErrorKind::AddrInUse,
    ErrorKind::AddrNotAvailable,
    ErrorKind::NetworkDown,
    ErrorKind::BrokenPipe,
    ErrorKind::AlreadyExists,
    ErrorKind::WouldBlock,
    ErrorKind::NotADirectory,
    ErrorKind::IsADirectory,
    ErrorKind::DirectoryNotEmpty,
    ErrorKind::ReadOnlyFilesystem,
    ErrorKind::StaleNetworkFileHandle,
    ErrorKind::InvalidInput,
    ErrorKind::InvalidData,
    ErrorKind::TimedOut,
    ErrorKind::WriteZero,
    ErrorKind::StorageFull,
    ErrorKind::NotSeekable,
    ErrorKind::ResourceBusy,
    ErrorKind::Deadlock,
    ErrorKind::TooManyLinks,
    ErrorKind::ArgumentListTooLong,
    ErrorKind::Unsupported,
    ErrorKind::UnexpectedEof,
    ErrorKind::OutOfMemory,
    ErrorKind::Other,
];

fn some_fault(r: &mut Rng) -> Fault {
    let k = if r.bool() {
        *r.pick(&[ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::WouldBlock, ErrorKind::WriteZero, ErrorKind::InvalidData, ErrorKind::BrokenPipe])
    } else {
        *r.pick(KINDS)
    };
    match r.below(10) {
        0 => Fault::End,
        1 => Fault::EndOnce,
        2..=5 => Fault::Kind(k),
        _ => Fault::Once(k),
    }
}

fn positions(r: &mut Rng, n: usize) -> Vec<usize> {
    if n <= 600 {
        return (0..=n).collect();
    }
    let mut v: Vec<usize> = (0..40).chain(n - 40..=n).collect();
    for b in [126, 127, 128, 129, 255, 256, 4095, 4096, 4097, 4098, 8191, 8192, 8193] {
        if b < n {
            v.push(b)
        }
    }
    for _ in 0..120 {
        v.push(r.below(n + 1))
    }
    v
}

fn maybe_sched(r: &mut Rng) -> Sched {
    if r.pct(60) {
        Sched::Whole
    } else {
        sched(r)
    }
}

/// One write with a fault at byte `p` of `want`.
fn write_fault(c: &mut Case, what: &str, want: &[u8], p: usize, mut op: impl FnMut(&mut MonWriter) -> R<bool>) -> R {
    let f = some_fault(&mut c.rng);
    let s = maybe_sched(&mut c.rng);
    let mut w = MonWriter::with(s, Some((p, f)));
    let ok = op(&mut w)?;
    let hit = w.stats.faults > 0;
    ensure!(
        want.starts_with(&w.out),
        "{}: with {:?} at byte {} the bytes written are not a prefix of the encoding: {}",
        what, f, p, diff(&w.out, want)
    );
    if hit {
        ensure!(!ok, "{}: {:?} at byte {} of {} is absorbed: reported as written, {} bytes arrived", what, f, p, want.len(), w.out.len());
        c.count("write_faults_hit", 1);
    } else {
        ensure!(ok, "{}: fails although the writer did not ({} of {} bytes)", what, w.out.len(), want.len());
        ensure!(w.out.len() == want.len(), "{}: {} of {} bytes written", what, w.out.len(), want.len());
        c.count("writes_without_fault", 1);
    }
    c.evals(1);
    Ok(())
}

/// One read with a fault at byte `p` of `enc`, followed by more bytes.
fn read_fault(c: &mut Case, what: &str, enc: &[u8], p: usize, mut op: impl FnMut(&mut MonReader) -> R<bool>) -> R {
    let f = some_fault(&mut c.rng);
    let s = maybe_sched(&mut c.rng);
    let mut data = enc.to_vec();
    data.extend_from_slice(&[0, 1, 0xff, 0x80, 3, 0, 0, 0, 0, 0, 0, 0]);
    let mut rd = MonReader::with(&data, s, Some((p, f)));
    let ok = op(&mut rd)?;
    if p < enc.len() {
        ensure!(!ok, "{}: {:?} at byte {} of {} is absorbed: a value comes back from {}", what, f, p, enc.len(), hex(enc));
        c.count("read_faults_hit", 1);
    } else {
        ensure!(ok, "{}: refused with all {} bytes there ({:?} only after them): {}", what, enc.len(), f, hex(enc));
        ensure!(rd.pos == enc.len(), "{}: {} of {} bytes consumed", what, rd.pos, enc.len());
        c.count("reads_without_fault", 1);
    }
    c.evals(1);
    Ok(())
}

/// A strict prefix, delivered as a plain slice: the simplest truncation there is.
fn prefix(c: &mut Case, what: &str, enc: &[u8], p: usize, op: impl FnOnce(&mut &[u8]) -> R<bool>) -> R {
    if p >= enc.len() {
        return Ok(());
    }
    let mut sl = &enc[..p];
    let ok = op(&mut sl)?;
    ensure!(!ok, "{}: the first {} of {} bytes are accepted: {}", what, p, enc.len(), hex(enc));
    c.count("prefixes_refused", 1);
    c.evals(1);
    Ok(())
}

fn de_slice(s: &Shape, sl: &mut &[u8]) -> R<bool> {
    match guard("deserialize", || Seed(s).deserialize(&mut Deserializer::new(sl)))? {
        Err(dlhn::de::Error::Message(m)) if model_err(&m) => Err(Broken::Harness(m)),
        r => Ok(r.is_ok()),
    }
}

fn ok_shape(s: &Shape, rd: &mut MonReader) -> R<bool> {
    match de_shape(s, rd)?.0 {
        Err(dlhn::de::Error::Message(m)) if model_err(&m) => Err(Broken::Harness(m)),
        r => Ok(r.is_ok()),
    }
}

fn all_faults(c: &mut Case, s: &Shape, v: &Val) -> R {
    let enc = encode(v);
    let ps = positions(&mut c.rng, enc.len());
    let h = dynamic::to_header(s);
    let body = match &h {
        Some(_) => Some(guard("wrap", || dynamic::to_body(s, v))??),
        None => None,
    };
    let benc = encode(&v.normalize_maps());
    let whats = s.brief();
    for p in ps {
        write_fault(c, &whats, &enc, p, |w| guard("serialize", || Typed(s, v).serialize(&mut Serializer::new(w)).is_ok()))?;
        read_fault(c, &whats, &enc, p, |rd| ok_shape(s, rd))?;
        prefix(c, &whats, &enc, p, |sl| de_slice(s, sl))?;
        if let (Some(h), Some(b)) = (&h, &body) {
            if p <= benc.len() {
                write_fault(c, "dynamic body", &benc, p, |w| guard("serialize", || b.serialize(&mut Serializer::new(w)).is_ok()))?;
            }
            read_fault(c, "dynamic body", &enc, p, |rd| Ok(de_body(h, rd)?.0.is_ok()))?;
            prefix(c, "dynamic body", &enc, p, |sl| {
                guard("Body::deserialize", || dlhn::Body::deserialize(h, &mut Deserializer::new(sl)).is_ok())
            })?;
        }
    }
    c.seen(shape_hash(s, &enc));
    c.sample(|| format!("{} {} at every byte of {}", whats, v.brief(), hex(&enc)));
    Ok(())
}

fn header_faults(c: &mut Case, h: &Header) -> R {
    let enc = match encode_header(h) {
        Some(e) => e,
        None => return Ok(()),
    };
    use dlhn::DeserializeHeader;
    for p in positions(&mut c.rng, enc.len()) {
        write_fault(c, "header", &enc, p, |w| guard("Header::serialize", || h.serialize(w).is_ok()))?;
        read_fault(c, "header", &enc, p, |rd| Ok(de_header(rd)?.0.is_ok()))?;
        prefix(c, "header", &enc, p, |sl| guard("deserialize_header", || sl.deserialize_header().is_ok()))?;
    }
    c.seen_bytes(&enc);
    Ok(())
}

fn real_type(c: &mut Case, e: &corpus::Entry) -> R {
    let r0 = c.rng.clone();
    let budget = if c.rng.pct(10) { 600 } else { 60 };
    let (v, _) = e.gen_ser(&mut r0.clone(), budget)?;
    let enc = encode(&v);
    for p in positions(&mut c.rng, enc.len()) {
        // hash maps order their entries anew each time: judge each write by its own content
        let mut want = enc.clone();
        let mut out = None;
        let f = some_fault(&mut c.rng);
        let sch = maybe_sched(&mut c.rng);
        let mut w = MonWriter::with(sch, Some((p, f)));
        let (v2, o) = (e.ser)(&mut r0.clone(), budget, &mut w)?;
        if v2 != v {
            want = encode(&v2);
        }
        out.replace(o.is_ok());
        ensure!(want.starts_with(&w.out), "{}: bytes written before a fault at {} are no prefix: {}", e.name, p, diff(&w.out, &want));
        if w.stats.faults > 0 {
            ensure!(out == Some(false), "{}: write {:?} at byte {} of {} is absorbed", e.name, f, p, want.len());
        } else {
            ensure!(out == Some(true) && w.out.len() == want.len(), "{}: write fails without a fault", e.name);
        }
        c.count("write_faults_hit", w.stats.faults.min(1));
        read_fault(c, e.name, &enc, p, |rd| Ok((e.de)(rd)?.0.is_ok()))?;
    }
    if let Some(f) = e.header_to {
        let enc = match e.header().unwrap()? {
            Ok(b) => b,
            Err(x) => vio!("header of {} fails: {:?}", e.name, x),
        };
        for p in positions(&mut c.rng, enc.len()) {
            write_fault(c, e.name, &enc, p, |w| Ok(f(w)?.is_ok()))?;
        }
    }
    c.seen(mix(hash_bytes(e.name.as_bytes()), hash_bytes(&enc)));
    Ok(())
}

pub fn c10(run: &Run) {
    run.section("shapes", run.n(4_000, 150_000), |c| {
        let s = gen_inhabited(&mut c.rng, 3, ANY);
        let mut b = if c.rng.pct(5) { 2_000 } else { 120 };
        let v = gen_val(&mut c.rng, &s, &mut b);
        all_faults(c, &s, &v)
    });
    // each kind of leaf and container alone, with lengths on the boundaries of internal buffers
    let lens: &[usize] = &[0, 1, 2, 5, 126, 127, 128, 129, 200, 256, 4095, 4096, 4097, 8192, 8193];
    let kinds = leaf_kinds();
    run.section("kinds", (kinds.len() * lens.len()) as u64 * run.n(1, 6), |c| {
        let i = c.idx as usize % (kinds.len() * lens.len());
        let s = &kinds[i / lens.len()];
        let v = super::typed::of_len(&mut c.rng, s, lens[i % lens.len()]);
        all_faults(c, s, &v)
    });
    run.section("scalars", run.n(3_000, 60_000), |c| {
        let s = gen_leaf(&mut c.rng, ANY);
        let mut b = 60;
        let v = gen_val(&mut c.rng, &s, &mut b);
        all_faults(c, &s, &v)
    });
    run.section("headers", run.n(2_000, 60_000), |c| {
        let h = gen_header(&mut c.rng, 4);
        header_faults(c, &h)
    });
    let es = corpus::entries();
    run.section("real-types", es.len() as u64 * run.n(4, 60), |c| real_type(c, &es[c.idx as usize % es.len()]));
    // types that write their content in a hand-made way
    let own = ["With", "Vec<With>", "dlhn::BigUint", "dlhn::BigInt", "dlhn::BigDecimal", "dlhn::Date", "dlhn::DateTime"];
    let own: Vec<_> = es.into_iter().filter(|e| own.contains(&e.name)).collect();
    run.section("numbers", own.len() as u64 * run.n(200, 4_000), |c| real_type(c, &own[c.idx as usize % own.len()]));
}

pub fn leaf_kinds() -> Vec<Shape> {
    let seq = |s: Shape| Shape::Seq(Box::new(s));
    vec![
        Shape::Str,
        Shape::Bytes,
        Shape::BigUint,
        Shape::BigInt,
        Shape::BigDec,
        seq(Shape::U8),
        seq(Shape::U16),
        seq(Shape::Opt(Box::new(Shape::I32))),
        seq(Shape::Tuple(vec![Shape::Bool, Shape::F32])),
        Shape::Map(Box::new(Shape::Bool)),
    ]
}

// ---- C18 -----------------------------------------------------------------------------------

fn tally(c: &mut Case, st: &IoStats) {
    c.count("transfers", st.calls);
    c.count("short_transfers", st.short);
    c.count("interrupted_transfers", st.interrupted);
}

/// The same bytes under several schedules, against delivery in one piece.
fn deliver(c: &mut Case, s: &Shape, b: &[u8]) -> R {
    let mut whole = MonReader::new(b);
    let (want, _) = de_shape(s, &mut whole)?;
    if let Err(dlhn::de::Error::Message(m)) = &want {
        if model_err(m) {
            return Err(Broken::Harness(m.clone()));
        }
    }
    for k in 0..3 {
        let sch = if k == 0 { Sched::One } else { sched(&mut c.rng) };
        let desc = format!("{:?}", sch);
        let mut rd = MonReader::with(b, sch, None);
        let (got, _) = de_shape(s, &mut rd)?;
        match (&got, &want) {
            (Ok(a), Ok(b2)) => {
                ensure!(a == b2, "{}: {} delivered by {} gives {} instead of {}", s.brief(), hex(b), desc, a.brief(), b2.brief());
                ensure!(rd.pos == whole.pos, "{}: delivered by {} consumes {} instead of {}", s.brief(), desc, rd.pos, whole.pos);
            }
            (Err(_), Err(_)) => {}
            (a, w) => vio!("{}: {} delivered by {} gives {:?}, in one piece {:?}", s.brief(), hex(b), desc, a, w),
        }
        tally(c, &rd.stats);
        c.evals(1);
    }
    // readers of the standard library that deliver in pieces of their own
    let k = c.rng.below(b.len() + 1);
    let mut chained = (&b[..k]).chain(&b[k..]);
    let got = guard("deserialize", || Seed(s).deserialize(&mut Deserializer::new(&mut chained)))?;
    same(s, b, "two chained slices", &got, &want)?;
    let cap = c.rng.range(1, 9);
    let mut br = std::io::BufReader::with_capacity(cap, b);
    let got = guard("deserialize", || Seed(s).deserialize(&mut Deserializer::new(&mut br)))?;
    same(s, b, "a small buffered reader", &got, &want)?;
    let mut sl = b;
    let mut dynr: &mut dyn Read = &mut sl;
    let got = guard("deserialize", || Seed(s).deserialize(&mut Deserializer::new(&mut dynr)))?;
    same(s, b, "a dyn Read", &got, &want)?;
    c.evals(3);
    if let Some(h) = dynamic::to_header(s) {
        let mut whole = MonReader::new(b);
        let (want, _) = de_body(&h, &mut whole)?;
        for k in 0..2 {
            let sch = if k == 0 { Sched::One } else { sched(&mut c.rng) };
            let desc = format!("{:?}", sch);
            let mut rd = MonReader::with(b, sch, None);
            let (got, _) = de_body(&h, &mut rd)?;
            match (&got, &want) {
                (Ok(a), Ok(b2)) => {
                    ensure!(dynamic::body_eq(a, b2), "body under {:?}: {} delivered by {} differs", h, hex(b), desc);
                    ensure!(rd.pos == whole.pos, "body delivered by {} consumes {} instead of {}", desc, rd.pos, whole.pos);
                }
                (Err(_), Err(_)) => {}
                (a, w) => vio!("body under {:?}: {} delivered by {} gives {:?}, in one piece {:?}", h, hex(b), desc, a, w),
            }
            tally(c, &rd.stats);
            c.evals(1);
        }
    }
    c.seen(shape_hash(s, b));
    Ok(())
}

fn same(s: &Shape, b: &[u8], how: &str, got: &Result<Val, DeErr>, want: &Result<Val, DeErr>) -> R {
    match (got, want) {
        (Ok(a), Ok(w)) if a == w => Ok(()),
        (Err(_), Err(_)) => Ok(()),
        (a, w) => Err(Broken::Vio(format!("{}: {} through {} gives {:?} instead of {:?}", s.brief(), hex(b), how, a, w))),
    }
}

fn write_sched(c: &mut Case, s: &Shape, v: &Val) -> R {
    let want = ser_val(s, v)?;
    for k in 0..3 {
        let sch = if k == 0 { Sched::One } else { sched(&mut c.rng) };
        let desc = format!("{:?}", sch);
        let mut w = MonWriter::with(sch, None);
        let ok = guard("serialize", || Typed(s, v).serialize(&mut Serializer::new(&mut w)))?;
        ensure!(ok.is_ok(), "{}: written by {} fails: {:?}", s.brief(), desc, ok);
        ensure!(w.out == want, "{}: written by {} gives other bytes: {}", s.brief(), desc, diff(&w.out, &want));
        tally(c, &w.stats);
        c.evals(1);
    }
    c.seen(shape_hash(s, &want));
    Ok(())
}

pub fn c18(run: &Run) {
    run.section("reads", run.n(30_000, 1_200_000), |c| {
        let s = gen_shape(&mut c.rng, 4, HOSTILE);
        let b = some_bytes(c, &s);
        deliver(c, &s, &b)
    });
    let kinds = leaf_kinds();
    let lens: &[usize] = &[0, 1, 126, 127, 128, 129, 130, 255, 256, 257, 4095, 4096, 4097, 4098, 8191, 8192, 8193, 12288, 12289, 20000];
    run.section("lengths", (kinds.len() * lens.len()) as u64 * run.n(3, 40), |c| {
        let i = c.idx as usize % (kinds.len() * lens.len());
        let s = &kinds[i / lens.len()];
        let v = super::typed::of_len(&mut c.rng, s, lens[i % lens.len()]);
        let s = Shape::Tuple(vec![Shape::U8, s.clone(), Shape::U64]);
        let v = Val::Tuple(vec![Val::U8(3), v, Val::U64(c.rng.u64())]);
        deliver(c, &s, &encode(&v))?;
        write_sched(c, &s, &v)
    });
    run.section("writes", run.n(15_000, 500_000), |c| {
        let s = gen_inhabited(&mut c.rng, 4, ANY);
        let mut b = val_budget(&mut c.rng);
        let v = gen_val(&mut c.rng, &s, &mut b);
        write_sched(c, &s, &v)
    });
    run.section("headers", run.n(8_000, 300_000), |c| {
        let h = gen_header(&mut c.rng, 4);
        let mut b = match encode_header(&h) {
            Some(b) => b,
            None => return Ok(()),
        };
        let sch = if c.rng.pct(30) { Sched::One } else { sched(&mut c.rng) };
        let mut w = MonWriter::with(sch, None);
        let r = guard("Header::serialize", || h.serialize(&mut w))?;
        ensure!(r.is_ok() && w.out == b, "header written in pieces: {:?} {}", r, diff(&w.out, &b));
        tally(c, &w.stats);
        if c.rng.bool() {
            super::headers::damage(&mut c.rng, &mut b);
        }
        let mut whole = MonReader::new(&b);
        let (want, _) = de_header(&mut whole)?;
        for k in 0..3 {
            let sch = if k == 0 { Sched::One } else { sched(&mut c.rng) };
            let desc = format!("{:?}", sch);
            let mut rd = MonReader::with(&b, sch, None);
            let (got, _) = de_header(&mut rd)?;
            match (&got, &want) {
                (Ok(a), Ok(b2)) => ensure!(a == b2 && rd.pos == whole.pos, "header {} delivered by {} differs", hex(&b), desc),
                (Err(_), Err(_)) => {}
                (a, w) => vio!("header {} delivered by {}: {:?} instead of {:?}", hex(&b), desc, a, w),
            }
            tally(c, &rd.stats);
            c.evals(1);
        }
        c.seen_bytes(&b);
        Ok(())
    });
    let es = corpus::entries();
    run.section("real-types", es.len() as u64 * run.n(50, 1_200), |c| {
        let e = &es[c.idx as usize % es.len()];
        let budget = val_budget(&mut c.rng);
        let sch = sched(&mut c.rng);
        let mut w = MonWriter::with(sch, None);
        let (v, o) = (e.ser)(&mut c.rng, budget, &mut w)?;
        ensure!(o.is_ok(), "{} written in pieces fails: {:?}", e.name, o);
        let want = encode(&v);
        ensure!(w.out == want, "{} written in pieces: {}", e.name, diff(&w.out, &want));
        tally(c, &w.stats);
        let sch = sched(&mut c.rng);
        let mut rd = MonReader::with(&want, sch, None);
        let (got, _) = (e.de)(&mut rd)?;
        match got {
            Ok(g) => ensure!(g.normalize_maps() == v.normalize_maps() && rd.pos == want.len(), "{} delivered in pieces: {} instead of {}", e.name, g.brief(), v.brief()),
            Err(x) => vio!("{} delivered in pieces is refused: {:?} {}", e.name, x, hex(&want)),
        }
        tally(c, &rd.stats);
        if let Some(f) = e.header_to {
            let want = e.header().unwrap()?;
            let sch = sched(&mut c.rng);
            let mut w = MonWriter::with(sch, None);
            let o = f(&mut w)?;
            ensure!(o.is_ok() && want.as_ref().ok() == Some(&w.out), "header of {} written in pieces: {:?}", e.name, o);
        }
        c.seen(mix(c.idx % es.len() as u64, hash_bytes(&want)));
        Ok(())
    });
}
