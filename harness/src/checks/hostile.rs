//! C04 hostile bodies, and the probes of the known findings about nesting and empty elements.
use super::headers::{damage, header_budget, known_deep_header};
use super::util::*;
use crate::corpus;
use crate::mon::*;
use crate::{ensure, vio};
use dlhn::{Body, Deserializer, Header};
use refmodel::*;
use serde::Deserialize;

fn budget(s: &Shape, bytes: usize) -> usize {
    mem_budget(bytes, s.nodes(), s.depth())
}

/// The outcome of a hostile decode, whatever it is: bounded in memory, and no reads past the end.
fn bounded(c: &mut Case, what: &str, s: &Shape, b: &[u8], rd: &MonReader, ok: bool, peak: usize) -> R {
    let lim = budget(s, b.len());
    ensure!(
        peak <= lim,
        "{}: {} bytes of memory for {} bytes of input (limit {}): {}",
        what, peak, b.len(), lim, hex(b)
    );
    ensure!(rd.pos <= b.len(), "{}: reader position beyond the input", what);
    c.max("peak_memory", peak as u64);
    c.max("peak_per_mille_of_limit", (peak as u64 * 1000) / lim as u64);
    c.count(if ok { "accepted" } else { "refused" }, 1);
    c.evals(1);
    Ok(())
}

fn shape_case(c: &mut Case, s: &Shape, b: &[u8]) -> R {
    let sc = if c.rng.pct(80) { Sched::Whole } else { sched(&mut c.rng) };
    let mut rd = MonReader::with(b, sc, None);
    let (got, peak) = de_shape(s, &mut rd)?;
    if let Err(dlhn::de::Error::Message(m)) = &got {
        if model_err(m) {
            return Err(Broken::Harness(m.clone()));
        }
        c.count("refused_by_visitor", 1);
    }
    bounded(c, &s.brief(), s, b, &rd, got.is_ok(), peak)?;
    if let Ok(v) = got {
        // what was decoded can be used: written again, whatever it is
        let (r, _) = guard_mem("serialize what was decoded", CAP, || ser(&Typed(s, &v)))?;
        if let Err(e) = r? {
            vio!("{}: what {} decodes to does not serialize: {:?}", s.brief(), hex(b), e)
        }
        c.count("written_again", 1);
    }
    Ok(())
}

fn body_case(c: &mut Case, h: &Header, s: &Shape, b: &[u8]) -> R {
    let sc = if c.rng.pct(80) { Sched::Whole } else { sched(&mut c.rng) };
    let mut rd = MonReader::with(b, sc, None);
    let (got, peak) = de_body(h, &mut rd)?;
    bounded(c, "body", s, b, &rd, got.is_ok(), peak)?;
    if let Ok(x) = got {
        ensure!(validate(&x, h)?, "body decoded from {} does not validate", hex(b));
        if let Err(e) = ser(&x)? {
            vio!("body decoded from {} does not serialize: {:?}", hex(b), e)
        }
        convert(c, &x)?;
    }
    Ok(())
}

/// Converts the numbers and dates in a decoded body: received content must convert or be refused.
fn convert(c: &mut Case, b: &Body) -> R {
    const LIM: usize = 256 << 20;
    match b {
        Body::Optional(Some(x)) => convert(c, x)?,
        Body::Array(v) | Body::Tuple(v) => {
            for x in v.iter().take(200) {
                convert(c, x)?
            }
        }
        Body::Map(m) => {
            for x in m.values().take(200) {
                convert(c, x)?
            }
        }
        Body::Enum(_, x) => convert(c, x)?,
        Body::BigUInt(x) => {
            guard_mem("BigUint -> number", LIM, || -> num_bigint::BigUint { x.clone().into() })?;
            c.count("converted", 1);
        }
        Body::BigInt(x) => {
            guard_mem("BigInt -> number", LIM, || -> num_bigint::BigInt { x.clone().into() })?;
            c.count("converted", 1);
        }
        Body::BigDecimal(x) => {
            guard_mem("BigDecimal -> number", LIM, || -> bigdecimal::BigDecimal { x.clone().into() })?;
            c.count("converted", 1);
        }
        Body::Date(x) => {
            let x = x.clone();
            guard_mem("Date -> date", LIM, || { let d: Result<time::Date, ()> = x.try_into(); d.is_ok() })?;
            c.count("converted", 1);
        }
        Body::DateTime(x) => {
            let x = x.clone();
            guard_mem("DateTime -> instant", LIM, || { let d: Result<time::OffsetDateTime, ()> = x.try_into(); d.is_ok() })?;
            c.count("converted", 1);
        }
        _ => {}
    }
    Ok(())
}

/// A container whose length claims far more than is there, below some others.
fn claim(r: &mut Rng) -> (Shape, Vec<u8>) {
    let leaf = match r.below(7) {
        0 => Shape::Str,
        1 => Shape::Bytes,
        2 => Shape::Seq(Box::new(Shape::U8)),
        3 => Shape::Map(Box::new(Shape::Bool)),
        4 => *r.pick(&[Shape::BigUint, Shape::BigInt, Shape::BigDec].map(Box::new)).clone(),
        5 => Shape::Seq(Box::new(Shape::Struct(vec![Shape::U64, Shape::Opt(Box::new(Shape::Str)), Shape::F64]))),
        _ => Shape::Char,
    };
    let mut b = Vec::new();
    let n = huge(r);
    let f = varint_forms(n, 64);
    b.extend(r.pick(&f));
    let k = match r.below(8) {
        0 => 4096 + r.below(6000),
        1 => 100 + r.below(300),
        _ => r.below(24),
    };
    // plausible content: small bytes, text
    let text = r.bool();
    b.extend((0..k).map(|_| if text { b'a' + r.below(26) as u8 } else { r.below(3) as u8 }));
    let mut s = leaf;
    for _ in 0..r.below(8) {
        let mut p: Vec<u8> = Vec::new();
        s = match r.below(6) {
            0 => {
                p.push(1);
                Shape::Opt(Box::new(s))
            }
            1 => {
                put_varint(&mut p, huge(r), 64);
                Shape::Seq(Box::new(s))
            }
            2 => {
                put_varint(&mut p, huge(r), 64);
                p.extend(b"\x02ab");
                Shape::Map(Box::new(s))
            }
            3 => Shape::Newtype(Box::new(s)),
            4 => {
                p.push(7);
                Shape::Struct(vec![Shape::U8, s])
            }
            _ => {
                p.push(1);
                Shape::Enum(vec![(0, Variant::Unit), (1, Variant::Tuple(vec![s, Shape::U8]))])
            }
        };
        p.extend(&b);
        b = p;
    }
    (s, b)
}

pub fn c04(run: &Run) {
    let max = if run.thorough() { 20_000 } else { 6_000 };
    run.section("typed", run.n(120_000, 4_000_000), |c| {
        let s = gen_shape(&mut c.rng, 4, HOSTILE);
        if s.has_zero_width_elements() {
            return Ok(());
        }
        for _ in 0..4 {
            let b = gen_hostile(&mut c.rng, &s, max);
            shape_case(c, &s, &b)?;
            c.seen(shape_hash(&s, &b));
        }
        Ok(())
    });
    run.section("claims", run.n(30_000, 1_000_000), |c| {
        let (s, b) = claim(&mut c.rng);
        shape_case(c, &s, &b)?;
        if let Some(h) = dynamic::to_header(&s) {
            body_case(c, &h, &header_shape_of(&h), &b)?;
        }
        c.seen(shape_hash(&s, &b));
        c.sample(|| format!("claim: {} from {}", s.brief(), hex(&b)));
        Ok(())
    });
    run.section("bodies", run.n(120_000, 4_000_000), |c| {
        let d = c.rng.range(0, 5);
        let h = gen_header(&mut c.rng, d);
        let s = header_shape_of(&h);
        if s.has_zero_width_elements() {
            return Ok(());
        }
        for _ in 0..4 {
            let b = gen_hostile(&mut c.rng, &s, max);
            body_case(c, &h, &s, &b)?;
            c.seen(shape_hash(&s, &b));
        }
        Ok(())
    });
    let es: Vec<_> = corpus::entries().into_iter().filter(|e| !(e.shape)().has_zero_width_elements()).collect();
    run.section("real-types", es.len() as u64 * run.n(600, 15_000), |c| {
        let k = c.idx as usize % es.len();
        let e = &es[k];
        let s = (e.shape)();
        let b = gen_hostile(&mut c.rng, &s, max);
        let sc = if c.rng.pct(80) { Sched::Whole } else { sched(&mut c.rng) };
        let mut rd = MonReader::with(&b, sc, None);
        let (got, peak) = (e.de)(&mut rd)?;
        bounded(c, e.name, &s, &b, &rd, got.is_ok(), peak)?;
        c.seen(mix(k as u64, hash_bytes(&b)));
        c.sample(|| format!("{}: {} -> {}", e.name, hex(&b), clip(&format!("{:?}", got), 120)));
        Ok(())
    });
    // a hostile header, and under it, if it is one, a hostile body
    run.section("header-then-body", run.n(60_000, 2_000_000), |c| {
        let d = c.rng.range(0, 5);
        let h = gen_header(&mut c.rng, d);
        let mut b = encode_header(&h).unwrap_or_default();
        damage(&mut c.rng, &mut b);
        let mut rd = MonReader::new(&b);
        let (got, peak) = de_header(&mut rd)?;
        ensure!(peak <= header_budget(&b), "header of {} bytes takes {} bytes of memory: {}", b.len(), peak, hex(&b));
        c.evals(1);
        c.seen_bytes(&b);
        if let Ok(h) = got {
            let s = header_shape_of(&h);
            if dynamic::header_nodes(&h) < 3000 && !s.has_zero_width_elements() {
                let x = gen_hostile(&mut c.rng, &s, 1000);
                body_case(c, &h, &s, &x)?;
                c.count("headers_accepted", 1);
            }
        }
        Ok(())
    });
    // the raw content of numbers and dates, and their conversions
    run.section("numbers", run.n(40_000, 1_000_000), |c| {
        let (h, s) = match c.rng.below(5) {
            0 => (Header::BigUInt, Shape::BigUint),
            1 => (Header::BigInt, Shape::BigInt),
            2 => (Header::BigDecimal, Shape::BigDec),
            3 => (Header::Date, Shape::Date),
            _ => (Header::DateTime, Shape::DateTime),
        };
        let mut b = Vec::new();
        match s {
            Shape::Date => {
                put_varint(&mut b, edge(&mut c.rng, 32), 32);
                put_varint(&mut b, edge(&mut c.rng, 16), 16);
            }
            Shape::DateTime => {
                put_varint(&mut b, edge(&mut c.rng, 64), 64);
                put_varint(&mut b, edge(&mut c.rng, 32), 32);
            }
            _ => {
                let n = gen_len(&mut c.rng, 300);
                put_varint(&mut b, n as u64, 64);
                let fill = *c.rng.pick(&[0u8, 0xff, 0x80, 0x7f, 1]);
                if c.rng.bool() {
                    b.extend(vec![fill; n])
                } else {
                    b.extend(c.rng.bytes(n))
                }
                if s == Shape::BigDec && n > 0 {
                    put_varint(&mut b, edge(&mut c.rng, 64), 64);
                }
            }
        }
        body_case(c, &h, &s, &b)?;
        c.seen(shape_hash(&s, &b));
        Ok(())
    });
    // strings and byte strings around the decoder's buffer sizes, cut or damaged
    run.section("buffers", run.n(8_000, 200_000), |c| {
        let n = *c.rng.pick(&[0usize, 1, 2, 126, 127, 128, 129, 255, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 12289]);
        let claimed = match c.rng.below(4) {
            0 => n as u64 + 1,
            1 => (n as u64).saturating_sub(1),
            2 => n as u64 + 4096,
            _ => n as u64,
        };
        let mut b = Vec::new();
        put_varint(&mut b, claimed, 64);
        let mut t = if c.rng.bool() { gen_string(&mut c.rng, n).into_bytes() } else { vec![b'x'; n] };
        if c.rng.pct(40) && !t.is_empty() {
            let i = c.rng.below(t.len());
            t[i] = *c.rng.pick(&[0x80, 0xc0, 0xff, 0xed, 0xf4, 0xe2]);
        }
        b.extend(t);
        for s in [Shape::Str, Shape::Bytes, Shape::Char, Shape::Map(Box::new(Shape::U8))] {
            shape_case(c, &s, &b)?;
            if let Some(h) = dynamic::to_header(&s) {
                body_case(c, &h, &s, &b)?;
            }
        }
        c.seen_bytes(&b);
        Ok(())
    });
    known(run);
}

fn edge(r: &mut Rng, bits: u32) -> u64 {
    let m = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
    let v = match r.below(8) {
        0 => m,
        1 => m - 1,
        2 => m / 2 + r.below(3) as u64,
        3 => r.below(4) as u64,
        4 => 360 + r.below(10) as u64,
        5 => zig(9999 + r.below(3) as i64 - 2000) & m,
        6 => zig(-9999 - r.below(3) as i64) & m,
        _ => r.int(bits),
    };
    v & m
}

fn header_shape_of(h: &Header) -> Shape {
    dynamic::header_shape(h)
}

fn known(run: &Run) {
    known_deep_header(run);
    if run.cfg.replay.is_some() {
        return;
    }
    match run.probe(&["zero-width"], 120) {
        ProbeEnd::Code(10) => run.known(format!(
            "KNOWN-FINDING: property={} a body array of unit elements claiming 4000000 of them (5 bytes) takes memory for each",
            run.cfg.prop
        )),
        ProbeEnd::Code(0) => {}
        e => run.harness_error(format!("probe zero-width ended with {:?}", e)),
    }
    match run.probe(&["deep-typed"], 60) {
        ProbeEnd::Signal(_) => run.known(format!(
            "KNOWN-FINDING: property={} deeply nested body bytes (2000000 times 0x01) for a self-referential type overflow the stack and abort the process",
            run.cfg.prop
        )),
        ProbeEnd::Code(0) => {}
        e => run.harness_error(format!("probe deep-typed ended with {:?}", e)),
    }
    run.count("probes", 2);
}

pub fn probe_deep_header() -> i32 {
    use dlhn::DeserializeHeader;
    let b = vec![1u8; 2_000_000];
    let r = (&b[..]).deserialize_header();
    std::hint::black_box(&r);
    0
}

pub fn probe_zero_width() -> i32 {
    let mut b = Vec::new();
    put_varint(&mut b, 4_000_000, 64);
    let mut rd = MonReader::new(&b);
    match de_body(&Header::Array(Box::new(Header::Unit)), &mut rd) {
        Ok((_, peak)) if peak > 16 << 20 => 10,
        Ok(_) => 0,
        Err(_) => 3,
    }
}

#[derive(Deserialize)]
#[allow(dead_code)]
struct Chain {
    next: Option<Box<Chain>>,
}

pub fn probe_deep_typed() -> i32 {
    let b = vec![1u8; 2_000_000];
    let mut r = &b[..];
    let x = Chain::deserialize(&mut Deserializer::new(&mut r));
    std::hint::black_box(&x.is_ok());
    std::mem::forget(x);
    0
}
