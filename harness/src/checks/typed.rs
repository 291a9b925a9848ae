//! C01 round trip, C02 wire format, C11 exact acceptance.
use super::util::*;
use crate::corpus;
use crate::mon::*;
use crate::{ensure, vio};
use refmodel::*;

const TAIL: &[u8] = &[0x00, 0xff, 0x80, 0x01, 0xfe, 0x7f, 0xc0, 0x05];

fn round_trip(c: &mut Case, s: &Shape, v: &Val) -> R {
    let b = ser_val(s, v)?;
    let with_tail = c.rng.bool();
    let mut data = b.clone();
    if with_tail {
        data.extend_from_slice(TAIL)
    }
    let mut rd = MonReader::new(&data);
    let (got, peak) = de_shape(s, &mut rd)?;
    match got {
        Err(DeErr::Message(m)) if model_err(&m) => return Err(Broken::Harness(m)),
        Err(e) => vio!("{} ({}) serializes to {} which is refused: {:?}", v.brief(), s.brief(), hex(&b), e),
        Ok(g) => ensure!(g == *v, "{} ({}) comes back as {} from {}", v.brief(), s.brief(), g.brief(), hex(&b)),
    }
    ensure!(rd.pos == b.len(), "{} of {} bytes consumed for {} ({})", rd.pos, b.len(), v.brief(), s.brief());
    c.max("largest_encoding_bytes", b.len() as u64);
    c.max("peak_decode_memory", peak as u64);
    c.count("bytes_round_tripped", b.len() as u64);
    c.seen(shape_hash(s, &b));
    c.sample(|| format!("{} = {} -> {}", s.brief(), v.brief(), hex(&b)));
    Ok(())
}

pub fn length_cases(huge: bool) -> Vec<(Shape, usize)> {
    let mut lens: Vec<usize> = LENS.to_vec();
    if huge {
        lens.extend_from_slice(HUGE_LENS)
    } else {
        lens.extend_from_slice(&[1 << 20, (1 << 21) - 1, 1 << 21, (1 << 21) + 1])
    }
    let seq = |s: Shape| Shape::Seq(Box::new(s));
    let shapes = [
        Shape::Str,
        Shape::Bytes,
        seq(Shape::U8),
        seq(Shape::Bool),
        seq(Shape::U16),
        seq(Shape::Unit),
        seq(Shape::Opt(Box::new(Shape::Unit))),
        seq(Shape::Struct(vec![Shape::Bool, Shape::I8])),
        Shape::Map(Box::new(Shape::U8)),
        Shape::BigUint,
        Shape::BigInt,
        Shape::BigDec,
    ];
    let mut out = vec![];
    for s in &shapes {
        for l in &lens {
            if *l > 300_000 && !matches!(s, Shape::Str | Shape::Bytes) && !(huge && matches!(s, Shape::Seq(i) if **i == Shape::U8)) {
                continue;
            }
            out.push((s.clone(), *l));
        }
    }
    out
}

/// A value of exactly this length.
pub fn of_len(r: &mut Rng, s: &Shape, n: usize) -> Val {
    let mut small = 20;
    match s {
        Shape::Str => Val::Str(gen_string(r, n)),
        Shape::Bytes => Val::Bytes(r.bytes(n)),
        Shape::BigUint => Val::BigUint(r.bytes(n)),
        Shape::BigInt => Val::BigInt(r.bytes(n)),
        Shape::BigDec => Val::BigDec(r.bytes(n), if n == 0 { 0 } else { gen_i(r, 64) }),
        Shape::Seq(i) => {
            let pool: Vec<Val> = (0..16).map(|_| gen_val(r, i, &mut small)).collect();
            Val::Seq((0..n).map(|_| r.pick(&pool).clone()).collect())
        }
        Shape::Map(i) => {
            let pool: Vec<Val> = (0..16).map(|_| gen_val(r, i, &mut small)).collect();
            Val::Map((0..n).map(|k| (format!("{:x}", k), r.pick(&pool).clone())).collect())
        }
        _ => gen_val(r, s, &mut small),
    }
}

pub const PLACES: usize = 16;

/// The value in one of the places a value can be in, with neighbours.
pub fn place(r: &mut Rng, how: usize, s: &Shape, v: Val) -> (Shape, Val) {
    let bx = |s: &Shape| Box::new(s.clone());
    let text = |n: &str| Val::Str(n.to_string());
    match how % PLACES {
        // as the first, middle or last key of a map
        k @ 0..=3 => match v {
            Val::Str(t) => {
                let mut m = vec![(t, Val::U8(r.u8()))];
                if k & 1 == 1 {
                    m.insert(0, (String::new(), Val::U8(1)))
                }
                if k & 2 == 2 {
                    m.push(("~~~".into(), Val::U8(2)))
                }
                m.sort_by(|a, b| a.0.cmp(&b.0));
                m.dedup_by(|a, b| a.0 == b.0);
                (Shape::Map(Box::new(Shape::U8)), Val::Map(m))
            }
            v => (Shape::Map(bx(s)), Val::Map(vec![("k".into(), v)])),
        },
        4 => (Shape::Map(bx(s)), Val::Map(vec![("k".into(), v.clone()), ("l".into(), v)])),
        5 => (Shape::Opt(bx(s)), Val::Some(Box::new(v))),
        6 => (Shape::Newtype(bx(s)), v),
        7 => (Shape::Seq(bx(s)), Val::Seq(vec![v])),
        8 => (Shape::Seq(bx(s)), Val::Seq(vec![v.clone(), v])),
        9 => (Shape::Tuple(vec![s.clone(), Shape::U16]), Val::Tuple(vec![v, Val::U16(700)])),
        10 => (Shape::TupleStruct(vec![Shape::Bool, s.clone()]), Val::Tuple(vec![Val::Bool(true), v])),
        11 => (Shape::Struct(vec![Shape::Str, s.clone(), Shape::I64]), Val::Tuple(vec![text("é"), v, Val::I64(-70_000)])),
        k => {
            let var = match k {
                12 => Variant::Newtype(s.clone()),
                13 => Variant::Tuple(vec![s.clone(), Shape::Str]),
                14 => Variant::Struct(vec![Shape::U8, s.clone()]),
                _ => Variant::Newtype(Shape::Opt(Box::new(Shape::Seq(bx(s))))),
            };
            let v = match k {
                12 => v,
                13 => Val::Tuple(vec![v, text("end")]),
                14 => Val::Tuple(vec![Val::U8(9), v]),
                _ => Val::Some(Box::new(Val::Seq(vec![v]))),
            };
            (Shape::Enum(vec![(0, Variant::Unit), (1, var)]), Val::Enum(1, Box::new(v)))
        }
    }
}

/// What `place` puts into places: (shape, length).
pub fn placed_cases(huge: bool) -> Vec<(Shape, usize)> {
    let mut lens = vec![0usize, 1, 127, 128, 129, 255, 256, 4095, 4096, 4097, 16383, 16384, 32768, 65535, 65536, 65537, 100_000];
    if huge {
        lens.extend([(1 << 21) - 1, 1 << 21, (1 << 22) + 7])
    }
    let seq = |s: Shape| Shape::Seq(Box::new(s));
    let mut out = vec![];
    for s in [Shape::Str, Shape::Str, Shape::Bytes, seq(Shape::U8), seq(Shape::Unit), Shape::Map(Box::new(Shape::Bool)), Shape::BigInt] {
        out.extend(lens.iter().filter(|l| **l < 20_000 || !matches!(s, Shape::Map(_))).map(|l| (s.clone(), *l)))
    }
    out
}

/// Enum indexes of every varint class, alone and inside other things.
pub fn index_shape(i: u32) -> Shape {
    Shape::Enum(vec![
        (i, Variant::Unit),
        (i.saturating_add(1), Variant::Newtype(Shape::U16)),
        (i.saturating_add(2), Variant::Struct(vec![Shape::Str, Shape::Bool])),
        (i.saturating_add(3), Variant::Tuple(vec![Shape::I32, Shape::Bytes])),
    ])
}

pub fn index_of(r: &mut Rng) -> u32 {
    match r.below(3) {
        0 => *r.pick(&[0u32, 124, 125, 126, 127, 128, 253, 255, 256, 16380, 16383, 16384, 65532, 65533, 65535, 65536, (1 << 21) - 3, 1 << 21, (1 << 28) - 2, 1 << 28, 1 << 31, u32::MAX - 3]),
        _ => (r.int(32) as u32).min(u32::MAX - 3),
    }
}

#[derive(serde::Serialize, serde::Deserialize, PartialEq, Debug)]
struct Aliased {
    #[serde(alias = "other")]
    a: u16,
    b: u8,
}

/// serde lists the aliases of a struct among its fields, and each is taken for a field: a known
/// finding, in this form only.
fn known_alias(run: &Run) {
    if run.cfg.replay.is_some() {
        return;
    }
    let v = Aliased { a: 300, b: 5 };
    let r = ser(&v).and_then(|b| {
        let b = b.map_err(|e| Broken::Vio(format!("a struct with an alias does not serialize: {:?}", e)))?;
        ensure!(b == encode(&Val::Tuple(vec![Val::U16(300), Val::U8(5)])), "a struct with an alias is written as {}", hex(&b));
        let mut rd = b.as_slice();
        let got = guard("deserialize", || <Aliased as serde::Deserialize>::deserialize(&mut dlhn::Deserializer::new(&mut rd)))?;
        match got {
            Ok(x) if x == v && rd.is_empty() => {}
            Err(DeErr::Message(m)) if m.contains("duplicate field") => run.known(format!(
                "KNOWN-FINDING: property=C01 a struct with #[serde(alias)] on a field is refused when read back (duplicate field)"
            )),
            o => vio!("a struct with an alias is read back as {:?}", o),
        }
        Ok(())
    });
    match r {
        Ok(()) => {}
        Err(Broken::Vio(m)) => run.violation("alias", 0, 0, m),
        Err(Broken::Harness(m)) => run.harness_error(m),
    }
}

pub fn c01(run: &Run) {
    known_alias(run);
    super::vast::round_trips(run);
    run.section("shapes", run.n(60_000, 3_000_000), |c| {
        let s = gen_inhabited(&mut c.rng, 4, ANY);
        let mut b = val_budget(&mut c.rng);
        let v = gen_val(&mut c.rng, &s, &mut b);
        round_trip(c, &s, &v)
    });
    run.section("deep", run.n(400, 20_000), |c| {
        let mut s = gen_inhabited(&mut c.rng, 2, ANY);
        let n = c.rng.range(5, 120);
        for _ in 0..n {
            s = match c.rng.below(6) {
                0 => Shape::Opt(Box::new(s)),
                1 => Shape::Newtype(Box::new(s)),
                2 => Shape::Seq(Box::new(s)),
                3 => Shape::Struct(vec![Shape::U8, s]),
                4 => Shape::Enum(vec![(0, Variant::Unit), (1, Variant::Newtype(s))]),
                _ => Shape::Tuple(vec![s, Shape::Bool]),
            };
        }
        let mut b = 400;
        let v = gen_val(&mut c.rng, &s, &mut b);
        c.max("deepest_type", s.depth() as u64);
        round_trip(c, &s, &v)
    });
    run.section("deeper", DEEP.len() as u64 * run.n(6, 60), |c| {
        let n = DEEP[c.idx as usize % DEEP.len()];
        c.max("deepest_value", n as u64);
        on_big_stack(|| {
            let (s, v) = deep(&mut c.rng, n);
            round_trip(c, &s, &v)
        })
    });
    let lens = length_cases(run.thorough());
    let reps = run.n(3, 12);
    run.section("lengths", lens.len() as u64 * reps, |c| {
        let (s, n) = &lens[c.idx as usize % lens.len()];
        let mut v = of_len(&mut c.rng, s, *n);
        let mut s = s.clone();
        if c.rng.bool() {
            // neighbours on both sides notice a length that is off by one
            s = Shape::Struct(vec![Shape::U64, s, Shape::I64]);
            v = Val::Tuple(vec![Val::U64(c.rng.int(64)), v, Val::I64(gen_i(&mut c.rng, 64))]);
        }
        c.count("boundary_lengths", 1);
        round_trip(c, &s, &v)
    });
    let placed = placed_cases(run.thorough());
    run.section("placed", (placed.len() * PLACES) as u64 * run.n(1, 6), |c| {
        let i = c.idx as usize % (placed.len() * PLACES);
        let (s, n) = &placed[i / PLACES];
        let v = of_len(&mut c.rng, s, *n);
        let (s, v) = place(&mut c.rng, i % PLACES, s, v);
        c.count("placed", 1);
        round_trip(c, &s, &v)
    });
    run.section("enum-indexes", run.n(6_000, 200_000), |c| {
        let s = index_shape(index_of(&mut c.rng));
        let mut b = 200;
        let v = gen_val(&mut c.rng, &s, &mut b);
        let s2 = Shape::Seq(Box::new(Shape::Tuple(vec![Shape::U8, s])));
        let v2 = Val::Seq(vec![Val::Tuple(vec![Val::U8(7), v.clone()]), Val::Tuple(vec![Val::U8(8), v])]);
        round_trip(c, &s2, &v2)
    });
    let es = corpus::entries();
    run.section("real-types", es.len() as u64 * run.n(200, 5_000), |c| {
        let e = &es[c.idx as usize % es.len()];
        let budget = val_budget(&mut c.rng);
        let (v, b) = e.gen_ser(&mut c.rng, budget)?;
        let b = match b {
            Ok(b) => b,
            Err(x) => vio!("{} {} does not serialize: {:?}", e.name, v.brief(), x),
        };
        let mut data = b.clone();
        if c.rng.bool() {
            data.extend_from_slice(TAIL)
        }
        let mut rd = MonReader::new(&data);
        let (got, _) = (e.de)(&mut rd)?;
        match got {
            Err(x) => vio!("{} {} serializes to {} which is refused: {:?}", e.name, v.brief(), hex(&b), x),
            Ok(g) => ensure!(
                g.normalize_maps() == v.normalize_maps(),
                "{} {} comes back as {} from {}",
                e.name,
                v.brief(),
                g.brief(),
                hex(&b)
            ),
        }
        ensure!(rd.pos == b.len(), "{}: {} of {} bytes consumed for {}", e.name, rd.pos, b.len(), v.brief());
        c.seen(mix(c.idx % es.len() as u64, hash_bytes(&b)));
        c.sample(|| format!("{} {} -> {}", e.name, v.brief(), hex(&b)));
        Ok(())
    });
    run.count("real_types", es.len() as u64);
}

fn wire_is(c: &mut Case, what: &str, v: &Val, got: &[u8]) -> R {
    let want = encode(v);
    ensure!(got == want, "{}: bytes of {} are not the format's: {}", what, v.brief(), diff(got, &want));
    c.count("bytes_compared", got.len() as u64);
    Ok(())
}

pub fn c02(run: &Run) {
    super::vast::prefixes(run);
    run.section("shapes", run.n(60_000, 3_000_000), |c| {
        let s = gen_inhabited(&mut c.rng, 4, ANY);
        let mut b = val_budget(&mut c.rng);
        let v = gen_val(&mut c.rng, &s, &mut b);
        let got = ser_val(&s, &v)?;
        wire_is(c, &s.brief(), &v, &got)?;
        // the same value, another writer, another serializer: the same bytes
        if c.rng.pct(20) {
            let sch = sched(&mut c.rng);
            let w = guard("serialize", || {
                use serde::Serialize;
                let mut w = MonWriter::with(sch, None);
                {
                    let dynw: &mut dyn std::io::Write = &mut w;
                    Typed(&s, &v).serialize(&mut dlhn::Serializer::new(dynw))?;
                }
                Ok::<_, SerErr>(w.out)
            })?;
            match w {
                Ok(w) => ensure!(w == got, "second serialization of {} differs: {}", v.brief(), diff(&w, &got)),
                Err(e) => vio!("second serialization of {} fails: {:?}", v.brief(), e),
            }
        }
        c.seen(shape_hash(&s, &got));
        c.sample(|| format!("{} = {} -> {}", s.brief(), v.brief(), hex(&got)));
        Ok(())
    });
    run.section("deeper", DEEP.len() as u64 * run.n(6, 60), |c| {
        let n = DEEP[c.idx as usize % DEEP.len()];
        c.max("deepest_value", n as u64);
        on_big_stack(|| {
            let (s, v) = deep(&mut c.rng, n);
            let got = ser_val(&s, &v)?;
            wire_is(c, "nested", &v, &got)?;
            c.seen(shape_hash(&s, &got));
            Ok(())
        })
    });
    let lens = length_cases(run.thorough());
    run.section("lengths", lens.len() as u64 * run.n(2, 8), |c| {
        let (s, n) = &lens[c.idx as usize % lens.len()];
        let v = of_len(&mut c.rng, s, *n);
        let got = ser_val(s, &v)?;
        wire_is(c, &s.brief(), &v, &got)?;
        c.seen(shape_hash(s, &got));
        Ok(())
    });
    let placed = placed_cases(run.thorough());
    run.section("placed", (placed.len() * PLACES) as u64 * run.n(1, 6), |c| {
        let i = c.idx as usize % (placed.len() * PLACES);
        let (s, n) = &placed[i / PLACES];
        let v = of_len(&mut c.rng, s, *n);
        let (s, v) = place(&mut c.rng, i % PLACES, s, v);
        let got = ser_val(&s, &v)?;
        wire_is(c, &s.brief(), &v, &got)?;
        c.seen(shape_hash(&s, &got));
        Ok(())
    });
    run.section("enum-indexes", run.n(6_000, 200_000), |c| {
        let s = index_shape(index_of(&mut c.rng));
        let mut b = 200;
        let v = gen_val(&mut c.rng, &s, &mut b);
        let got = ser_val(&s, &v)?;
        wire_is(c, &s.brief(), &v, &got)?;
        c.seen(shape_hash(&s, &got));
        Ok(())
    });
    let es = corpus::entries();
    run.section("real-types", es.len() as u64 * run.n(150, 4_000), |c| {
        let e = &es[c.idx as usize % es.len()];
        let budget = val_budget(&mut c.rng);
        let (v, b) = e.gen_ser(&mut c.rng, budget)?;
        match b {
            Ok(b) => {
                wire_is(c, e.name, &v, &b)?;
                c.seen(mix(c.idx % es.len() as u64, hash_bytes(&b)));
                c.sample(|| format!("{} {} -> {}", e.name, v.brief(), hex(&b)));
                Ok(())
            }
            Err(x) => vio!("{} {} does not serialize: {:?}", e.name, v.brief(), x),
        }
    });
    run.section("dynamic", run.n(20_000, 800_000), |c| {
        let s = gen_inhabited(&mut c.rng, 4, HEADERABLE);
        let mut b = val_budget(&mut c.rng);
        let v = gen_val(&mut c.rng, &s, &mut b);
        let body = guard("wrap", || dynamic::to_body(&s, &v))??;
        match ser(&body)? {
            Ok(got) => {
                // a dynamic map is written in key order
                wire_is(c, "dynamic body", &v.normalize_maps(), &got)?;
                c.seen(shape_hash(&s, &got));
                Ok(())
            }
            Err(e) => vio!("dynamic body {} does not serialize: {:?}", v.brief(), e),
        }
    });
}

/// Bytes for C11/C08: valid, loosely valid, or hostile.
pub fn some_bytes(c: &mut Case, s: &Shape) -> Vec<u8> {
    if inhabited(s) && c.rng.pct(25) {
        let mut b = val_budget(&mut c.rng);
        let v = gen_val(&mut c.rng, s, &mut b);
        let mut out = Vec::new();
        encode_loose(&v, &mut c.rng, &mut out);
        if c.rng.bool() {
            let n = c.rng.below(12);
            out.extend(c.rng.bytes(n));
        }
        c.count("loose_encodings", 1);
        out
    } else {
        c.count("hostile_inputs", 1);
        let max = val_budget(&mut c.rng);
        gen_hostile(&mut c.rng, s, max)
    }
}

pub fn c11(run: &Run) {
    run.section("shapes", run.n(120_000, 6_000_000), |c| {
        let s = gen_shape(&mut c.rng, 4, HOSTILE);
        let b = some_bytes(c, &s);
        check_accept(c, &s, &b)
    });
    // every single byte, every pair of bytes, as every leaf type
    let leaves = vec![
        Shape::Bool, Shape::U8, Shape::U16, Shape::U32, Shape::U64, Shape::I8, Shape::I16, Shape::I32, Shape::I64,
        Shape::F32, Shape::F64, Shape::Char, Shape::Str, Shape::Bytes, Shape::BigUint, Shape::BigInt, Shape::BigDec,
        Shape::Date, Shape::DateTime, Shape::Opt(Box::new(Shape::Bool)), Shape::Seq(Box::new(Shape::Bool)),
        Shape::Map(Box::new(Shape::Bool)), index_shape(0), index_shape(255), index_shape(65535), index_shape(65536),
        Shape::Opt(Box::new(Shape::Unit)), Shape::Struct(vec![Shape::Bool, Shape::Opt(Box::new(Shape::U8))]),
    ];
    run.section("two-bytes", leaves.len() as u64 * 256, |c| {
        let s = &leaves[c.idx as usize / 256];
        let a = (c.idx % 256) as u8;
        check_accept(c, s, &[a])?;
        for b in 0..=255u8 {
            check_accept(c, s, &[a, b])?;
        }
        // and with a random tail, so that longer forms complete
        for b in 0..=255u8 {
            let mut v = vec![a, b];
            let n = c.rng.range(0, 12);
            v.extend(c.rng.bytes(n));
            check_accept(c, s, &v)?;
        }
        Ok(())
    });
    run.section("deeper", DEEP.len() as u64 * run.n(6, 60), |c| {
        let n = DEEP[c.idx as usize % DEEP.len()];
        c.max("deepest_value", n as u64);
        on_big_stack(|| {
            let (s, v) = deep(&mut c.rng, n);
            let mut b = Vec::new();
            encode_loose(&v, &mut c.rng, &mut b);
            check_accept(c, &s, &b)?;
            if b.is_empty() {
                return Ok(());
            }
            // and damaged somewhere, often where the nesting ends
            let i = if c.rng.bool() { c.rng.below(b.len()) } else { b.len() - 1 - c.rng.below(b.len().min(4)) };
            if c.rng.pct(30) {
                b.truncate(i)
            } else {
                b[i] = c.rng.u8()
            }
            check_accept(c, &s, &b)
        })
    });
    // text: every 1..4 byte sequence class around the UTF-8 rules, at lengths on both sides of buffers
    run.section("text", run.n(30_000, 600_000), |c| {
        let s = match c.rng.below(4) {
            0 => Shape::Map(Box::new(Shape::U8)),
            1 => Shape::Char,
            2 => Shape::Struct(vec![Shape::Str, Shape::Bool]),
            _ => Shape::Str,
        };
        let n = match c.rng.below(4) {
            0 => c.rng.range(120, 136),
            1 => *c.rng.pick(&[4094usize, 4095, 4096, 4097, 4098, 8191, 8192, 8193]),
            _ => c.rng.range(1, 60),
        };
        let mut t = gen_string(&mut c.rng, n).into_bytes();
        let bad: &[&[u8]] = &[
            &[0x80], &[0xbf], &[0xc0, 0x80], &[0xc1, 0xbf], &[0xc3], &[0xe0, 0x80, 0x80], &[0xe0, 0x9f, 0xbf],
            &[0xed, 0xa0, 0x80], &[0xed, 0xbf, 0xbf], &[0xe2, 0x82], &[0xf0, 0x80, 0x80, 0x80], &[0xf0, 0x8f, 0xbf, 0xbf],
            &[0xf4, 0x90, 0x80, 0x80], &[0xf5, 0x80, 0x80, 0x80], &[0xf0, 0x9f, 0x98], &[0xff], &[0xfe],
            &[0xc3, 0xa9], &[0xe2, 0x82, 0xac], &[0xf0, 0x9f, 0x98, 0x80], &[0xef, 0xbf, 0xbf], &[0xf4, 0x8f, 0xbf, 0xbf],
        ];
        let p = *c.rng.pick(bad);
        if p.len() <= t.len() {
            let at = match c.rng.below(3) {
                0 => t.len() - p.len(),
                1 => 0,
                _ => c.rng.below(t.len() - p.len() + 1),
            };
            t[at..at + p.len()].copy_from_slice(p);
        }
        let mut b = Vec::new();
        if matches!(s, Shape::Map(_)) {
            put_varint(&mut b, 1, 64);
        }
        put_varint(&mut b, t.len() as u64, 64);
        b.extend_from_slice(&t);
        b.push(1);
        check_accept(c, &s, &b)
    });
    let es: Vec<_> = corpus::entries().into_iter().filter(|e| e.exact && !(e.shape)().has_zero_width_elements()).collect();
    run.section("real-types", es.len() as u64 * run.n(250, 8_000), |c| {
        let e = &es[c.idx as usize % es.len()];
        let s = (e.shape)();
        let b = some_bytes(c, &s);
        let want = decode(&s, &b);
        if matches!(want, Err(Fail::Skip)) {
            return Ok(());
        }
        let mut rd = MonReader::new(&b);
        let (got, _) = (e.de)(&mut rd)?;
        let got = got.map(|v| v.normalize_maps());
        let want = want.map(|mut d| {
            d.val = d.val.normalize_maps();
            d
        });
        agree(e.name, &s, &b, &got, rd.pos, &want)?;
        tally(c, &want);
        c.seen(mix(c.idx % es.len() as u64, hash_bytes(&b)));
        Ok(())
    });
}

fn tally(c: &mut Case, want: &Result<Decoded, Fail>) {
    match want {
        Ok(d) if d.open => c.count("open_forms", 1),
        Ok(_) => c.count("accepted", 1),
        Err(Fail::Eof) => c.count("refused_truncated", 1),
        Err(_) => c.count("refused_invalid", 1),
    }
}

fn check_accept(c: &mut Case, s: &Shape, b: &[u8]) -> R {
    let want = decode(s, b);
    if matches!(want, Err(Fail::Skip)) {
        return Ok(());
    }
    let mut rd = MonReader::new(b);
    let (got, _) = de_shape(s, &mut rd)?;
    agree("decode", s, b, &got, rd.pos, &want)?;
    tally(c, &want);
    c.seen(shape_hash(s, b));
    c.sample(|| format!("{} <- {} : {:?}", s.brief(), hex(b), want.as_ref().map(|d| d.val.brief())));
    Ok(())
}
