//! C07 dynamic bodies, C08 typed and dynamic decoding agree.
use super::typed::some_bytes;
use super::util::*;
use crate::corpus;
use crate::mon::*;
use crate::{ensure, vio};
use dlhn::{Body, Header};
use refmodel::*;

fn count(b: &Body) -> usize {
    1 + match b {
        Body::Optional(Some(b)) => count(b),
        Body::Array(v) | Body::Tuple(v) => v.iter().map(count).sum(),
        Body::Map(m) => m.values().map(count).sum(),
        Body::Enum(_, b) => count(b),
        _ => 0,
    }
}

/// Applies `f` to the n-th node, depth first.
fn at(b: &mut Body, n: &mut usize, f: &mut dyn FnMut(&mut Body)) -> bool {
    if *n == 0 {
        f(b);
        return true;
    }
    *n -= 1;
    match b {
        Body::Optional(Some(b)) => at(b, n, f),
        Body::Array(v) | Body::Tuple(v) => v.iter_mut().any(|b| at(b, n, f)),
        Body::Map(m) => m.values_mut().any(|b| at(b, n, f)),
        Body::Enum(_, b) => at(b, n, f),
        _ => false,
    }
}

fn header_at(h: &mut Header, n: &mut usize, f: &mut dyn FnMut(&mut Header)) -> bool {
    if *n == 0 {
        f(h);
        return true;
    }
    *n -= 1;
    match h {
        Header::Optional(h) | Header::Array(h) | Header::Map(h) => header_at(h, n, f),
        Header::Tuple(v) | Header::Enum(v) => v.iter_mut().any(|h| header_at(h, n, f)),
        _ => false,
    }
}

pub fn random_body(r: &mut Rng, depth: usize) -> Result<Body, String> {
    loop {
        let h = gen_header(r, depth);
        let s = dynamic::header_shape(&h);
        if inhabited(&s) {
            let mut b = 30;
            let v = gen_val(r, &s, &mut b).normalize_maps();
            return dynamic::to_body(&s, &v);
        }
    }
}

pub(super) fn mutate_body(r: &mut Rng, b: &mut Body) -> Result<(), String> {
    let n = count(b);
    // deep nodes are as likely as shallow ones
    let mut k = if r.pct(30) { r.below(n.min(4)) } else { r.below(n) };
    let fresh = random_body(r, 1)?;
    let what = r.below(6);
    let (x, y) = (r.u32(), r.below(4));
    at(b, &mut k, &mut |b| match (what, &mut *b) {
        (0, _) => *b = fresh.clone(),
        (1, Body::Tuple(v)) | (1, Body::Array(v)) => {
            if v.is_empty() {
                v.push(fresh.clone())
            } else {
                v.pop();
            }
        }
        (2, Body::Tuple(v)) | (2, Body::Array(v)) => {
            let i = x as usize % (v.len() + 1);
            v.insert(i, fresh.clone())
        }
        (3, Body::Tuple(v)) | (3, Body::Array(v)) if v.len() > 1 => {
            let n = v.len();
            v.swap(0, n - 1)
        }
        (4, Body::Tuple(v)) => *b = Body::Array(v.clone()),
        (4, Body::Array(v)) => *b = Body::Tuple(v.clone()),
        (_, Body::Enum(i, _)) => {
            *i = match y {
                0 => i.wrapping_add(1),
                1 => i.wrapping_sub(1),
                // the same number in fewer bits
                2 => i.wrapping_add(1 << (8 + x % 24)),
                _ => x,
            }
        }
        (_, Body::Optional(o)) => match y {
            0 => *o = None,
            1 => *o = Some(Box::new(fresh.clone())),
            2 => {
                if let Some(v) = o {
                    *b = (**v).clone()
                }
            }
            _ => *b = Body::Optional(Some(Box::new(b.clone()))),
        },
        (_, Body::Map(m)) => {
            m.insert(format!("~{}", x), fresh.clone());
        }
        (5, Body::Unit) => *b = Body::Tuple(vec![]),
        (5, Body::UInt8(v)) => *b = Body::Int8(*v as i8),
        (5, Body::UInt16(v)) => *b = Body::UInt32(*v as u32),
        (5, Body::UInt32(v)) => *b = Body::UInt64(*v as u64),
        (5, Body::UInt64(v)) => *b = Body::UInt32(*v as u32),
        (5, Body::Int32(v)) => *b = Body::Int64(*v as i64),
        (5, Body::Int64(v)) => *b = Body::Int16(*v as i16),
        (5, Body::Float32(v)) => *b = Body::Float64(*v as f64),
        (5, Body::Float64(v)) => *b = Body::Float32(*v as f32),
        (5, Body::String(v)) => *b = Body::Binary(serde_bytes::ByteBuf::from(v.clone().into_bytes())),
        (5, Body::Boolean(v)) => *b = Body::UInt8(*v as u8),
        _ => *b = fresh.clone(),
    });
    Ok(())
}

pub(super) fn mutate_header(r: &mut Rng, h: &mut Header) {
    let n = dynamic::header_nodes(h);
    let mut k = if r.pct(30) { r.below(n.min(4)) } else { r.below(n) };
    let fresh = gen_header(r, 1);
    let (what, x) = (r.below(6), r.u32() as usize);
    header_at(h, &mut k, &mut |h| match (what, &mut *h) {
        (0, Header::Tuple(v)) | (0, Header::Enum(v)) => {
            v.pop();
        }
        (1, Header::Tuple(v)) | (1, Header::Enum(v)) => v.push(fresh.clone()),
        (2, Header::Tuple(v)) | (2, Header::Enum(v)) if v.len() > 1 => {
            let i = x % v.len();
            v.swap(0, i)
        }
        (3, Header::Tuple(v)) => *h = Header::Enum(v.clone()),
        (3, Header::Enum(v)) => *h = Header::Tuple(v.clone()),
        (4, Header::Optional(i)) => *h = (**i).clone(),
        (4, Header::Array(i)) => *h = Header::Optional(i.clone()),
        (4, Header::Map(i)) => *h = Header::Array(i.clone()),
        (5, h) => *h = Header::Optional(Box::new(h.clone())),
        _ => *h = fresh.clone(),
    });
}

pub(super) fn verdict(c: &mut Case, b: &Body, h: &Header) -> R<bool> {
    let want = dynamic::conforms(b, h);
    let got = validate(b, h)?;
    ensure!(
        got == want,
        "validate says {} where the body {} {}: header {}, body {}",
        got,
        if want { "conforms" } else { "does not conform" },
        "to the header",
        clip(&format!("{:?}", h), 500),
        clip(&format!("{:?}", b), 500)
    );
    c.count(if want { "conforming" } else { "not_conforming" }, 1);
    c.evals(1);
    Ok(want)
}

/// A body that validates: written, read back, compared.
pub(super) fn back(c: &mut Case, b: &Body, h: &Header) -> R {
    let bytes = match ser(b)? {
        Ok(x) => x,
        Err(e) => vio!("a conforming body does not serialize: {:?}: {}", e, clip(&format!("{:?}", b), 400)),
    };
    let mut data = bytes.clone();
    data.extend_from_slice(&[0, 1, 0xff]);
    let mut rd = MonReader::new(&data);
    let (got, _) = de_body(h, &mut rd)?;
    match got {
        Ok(g) => {
            ensure!(
                dynamic::body_eq(&g, b),
                "body comes back as {} instead of {} from {}",
                clip(&format!("{:?}", g), 300),
                clip(&format!("{:?}", b), 300),
                hex(&bytes)
            );
            ensure!(validate(&g, h)?, "the decoded body does not validate");
        }
        Err(e) => vio!("conforming body {} = {} is refused under {}: {:?}", clip(&format!("{:?}", b), 300), hex(&bytes), clip(&format!("{:?}", h), 200), e),
    }
    ensure!(rd.pos == bytes.len(), "body of {} bytes: {} consumed", bytes.len(), rd.pos);
    c.count("round_trips", 1);
    c.evals(1);
    Ok(())
}

pub(super) fn pair(r: &mut Rng, depth: usize, budget: usize) -> Result<(Header, Body), String> {
    loop {
        let h = if r.bool() {
            gen_header(r, depth)
        } else {
            match dynamic::to_header(&gen_inhabited(r, depth, HEADERABLE)) {
                Some(h) => h,
                None => continue,
            }
        };
        let s = dynamic::header_shape(&h);
        if !inhabited(&s) {
            continue;
        }
        let mut b = budget;
        let v = gen_val(r, &s, &mut b).normalize_maps();
        return Ok((h, dynamic::to_body(&s, &v)?));
    }
}

fn pair_hash(h: &Header, b: &Body) -> u64 {
    mix(hash_bytes(format!("{:?}", h).as_bytes()), hash_bytes(format!("{:?}", b).as_bytes()))
}

pub fn c07(run: &Run) {
    run.section("conforming", run.n(30_000, 1_200_000), |c| {
        let budget = val_budget(&mut c.rng);
        let d = c.rng.range(0, 5);
        let (h, b) = guard("wrap", || pair(&mut c.rng, d, budget))??;
        if !verdict(c, &b, &h)? {
            return Err(Broken::Harness("generated body does not conform".into()));
        }
        back(c, &b, &h)?;
        c.seen(pair_hash(&h, &b));
        c.sample(|| format!("{} / {}", clip(&format!("{:?}", h), 200), clip(&format!("{:?}", b), 250)));
        Ok(())
    });
    run.section("mutated", run.n(100_000, 4_000_000), |c| {
        let budget = if c.rng.pct(10) { 400 } else { 40 };
        let d = c.rng.range(0, 4);
        let (mut h, mut b) = guard("wrap", || pair(&mut c.rng, d, budget))??;
        for _ in 0..(if c.rng.pct(75) { 1 } else { 2 }) {
            if c.rng.pct(70) {
                guard("wrap", || mutate_body(&mut c.rng, &mut b))??
            } else {
                mutate_header(&mut c.rng, &mut h)
            }
        }
        if verdict(c, &b, &h)? {
            back(c, &b, &h)?;
        }
        c.seen(pair_hash(&h, &b));
        Ok(())
    });
    // one wrong element in a long run of right ones
    run.section("long", run.n(3_000, 60_000), |c| {
        let leaf = leaf_header(&mut c.rng);
        let other = leaf_header(&mut c.rng);
        let n = *c.rng.pick(&[1usize, 2, 3, 7, 8, 9, 64, 126, 127, 128, 129, 255, 256, 257, 300, 1000]);
        let mk = |r: &mut Rng, h: &Header| -> Result<Body, String> {
            let s = dynamic::header_shape(h);
            let mut b = 10;
            let v = gen_val(r, &s, &mut b);
            dynamic::to_body(&s, &v)
        };
        let mut v = Vec::new();
        for _ in 0..n {
            v.push(guard("wrap", || mk(&mut c.rng, &leaf))??);
        }
        if c.rng.pct(70) {
            let i = match c.rng.below(3) {
                0 => n - 1,
                1 => 0,
                _ => c.rng.below(n),
            };
            v[i] = guard("wrap", || mk(&mut c.rng, &other))??;
        }
        let (h, b) = match c.rng.below(3) {
            0 => (Header::Array(Box::new(leaf)), Body::Array(v)),
            1 => (Header::Map(Box::new(leaf)), Body::Map(v.into_iter().enumerate().map(|(i, b)| (format!("{:x}", i), b)).collect())),
            _ => (Header::Tuple(vec![leaf; if c.rng.pct(80) { n } else { n + c.rng.below(3) - 1 }]), Body::Tuple(v)),
        };
        if verdict(c, &b, &h)? {
            back(c, &b, &h)?;
        }
        c.seen(pair_hash(&h, &b));
        Ok(())
    });
    run.section("deeper", DEEP.len() as u64 * run.n(8, 80), |c| {
        let n = DEEP[c.idx as usize % DEEP.len()];
        c.max("deepest_body", n as u64);
        on_big_stack(|| {
            let (s, v) = deep(&mut c.rng, n);
            let mut h = dynamic::to_header(&s).unwrap();
            let mut b = guard("wrap", || dynamic::to_body(&s, &v))??;
            if !verdict(c, &b, &h)? {
                return Err(Broken::Harness("generated body does not conform".into()));
            }
            back(c, &b, &h)?;
            c.seen(mix(n as u64, hash_bytes(&ser(&b)?.unwrap_or_default())));
            if c.rng.bool() {
                guard("wrap", || mutate_body(&mut c.rng, &mut b))??
            } else {
                mutate_header(&mut c.rng, &mut h)
            }
            if verdict(c, &b, &h)? {
                back(c, &b, &h)?;
            }
            Ok(())
        })
    });
    let placed = super::typed::placed_cases(run.thorough());
    let places = super::typed::PLACES;
    run.section("placed", (placed.len() * places) as u64 * run.n(1, 4), |c| {
        let i = c.idx as usize % (placed.len() * places);
        let (s, n) = &placed[i / places];
        let v = super::typed::of_len(&mut c.rng, s, *n);
        let (s, v) = super::typed::place(&mut c.rng, i % places, s, v);
        let h = match dynamic::to_header(&s) {
            Some(h) => h,
            None => return Ok(()),
        };
        let b = guard("wrap", || dynamic::to_body(&s, &v))??;
        if !verdict(c, &b, &h)? {
            return Err(Broken::Harness("generated body does not conform".into()));
        }
        back(c, &b, &h)?;
        c.seen(mix(i as u64, *n as u64));
        Ok(())
    });
    // every kind of body against every kind of header
    run.section("kinds", 26 * run.n(40, 400), |c| {
        for k in 0..26 {
            let (_, b) = guard("wrap", || kind(&mut c.rng, c.idx as usize % 26))??;
            let (h, _) = guard("wrap", || kind(&mut c.rng, k))??;
            if verdict(c, &b, &h)? {
                back(c, &b, &h)?;
            }
            c.seen(pair_hash(&h, &b));
        }
        Ok(())
    });
    run.section("enum-indexes", run.n(4_000, 100_000), |c| {
        let n = *c.rng.pick(&[1usize, 2, 5, 127, 128, 129, 255, 256, 257, 300, 1000, 16384, 16385, 65535]);
        let hs: Vec<Header> = if n > 400 { vec![Header::Boolean; n] } else { (0..n).map(|_| leaf_header(&mut c.rng)).collect() };
        let i = match c.rng.below(6) {
            0 => n as u64 - 1,
            1 => n as u64,
            2 => c.rng.below(n) as u64 + 256 * c.rng.range(1, 1000) as u64,
            3 => c.rng.below(n) as u64 + 65536 * c.rng.range(1, 65535) as u64,
            4 => c.rng.u32() as u64,
            _ => c.rng.below(n) as u64,
        } as u32;
        let h = hs.get(i as usize).cloned().unwrap_or(hs[i as usize % n].clone());
        let s = dynamic::header_shape(&h);
        let mut bud = 10;
        let v = gen_val(&mut c.rng, &s, &mut bud);
        let b = Body::Enum(i, Box::new(guard("wrap", || dynamic::to_body(&s, &v))??));
        let h = Header::Enum(hs);
        if verdict(c, &b, &h)? {
            back(c, &b, &h)?;
        }
        c.seen(mix(n as u64, i as u64));
        Ok(())
    });
    run.section("decoded", run.n(40_000, 1_500_000), |c| {
        let s = gen_shape(&mut c.rng, 4, HOSTILE_HEADERABLE);
        let h = match dynamic::to_header(&s) {
            Some(h) => h,
            None => return Ok(()),
        };
        let b = some_bytes(c, &s);
        let mut rd = MonReader::new(&b);
        if let Ok(body) = de_body(&h, &mut rd)?.0 {
            ensure!(validate(&body, &h)?, "{} decodes under {} to a body that does not validate: {}", hex(&b), clip(&format!("{:?}", h), 300), clip(&format!("{:?}", body), 300));
            ensure!(dynamic::conforms(&body, &h), "{} decodes under {} to a body that does not conform: {}", hex(&b), clip(&format!("{:?}", h), 300), clip(&format!("{:?}", body), 300));
            back(c, &body, &h)?;
            c.count("hostile_accepted", 1);
        }
        c.seen(shape_hash(&s, &b));
        Ok(())
    });
}

/// A header and a body of each kind.
fn kind(r: &mut Rng, k: usize) -> Result<(Header, Body), String> {
    let h = match k {
        0 => Header::Unit,
        1 => Header::Boolean,
        2 => Header::UInt8,
        3 => Header::UInt16,
        4 => Header::UInt32,
        5 => Header::UInt64,
        6 => Header::Int8,
        7 => Header::Int16,
        8 => Header::Int32,
        9 => Header::Int64,
        10 => Header::Float32,
        11 => Header::Float64,
        12 => Header::BigUInt,
        13 => Header::BigInt,
        14 => Header::BigDecimal,
        15 => Header::String,
        16 => Header::Binary,
        17 => Header::Date,
        18 => Header::DateTime,
        19 => Header::Optional(Box::new(leaf_header(r))),
        20 => Header::Array(Box::new(leaf_header(r))),
        21 => Header::Tuple((0..r.below(4)).map(|_| leaf_header(r)).collect()),
        22 => Header::Map(Box::new(leaf_header(r))),
        23 => Header::Enum((0..1 + r.below(4)).map(|_| leaf_header(r)).collect()),
        24 => Header::Tuple(vec![]),
        _ => Header::Optional(Box::new(Header::Optional(Box::new(Header::Unit)))),
    };
    let s = dynamic::header_shape(&h);
    let mut b = 12;
    let v = gen_val(r, &s, &mut b).normalize_maps();
    let body = dynamic::to_body(&s, &v)?;
    Ok((h, body))
}

fn both(c: &mut Case, name: &str, s: &Shape, h: &Header, b: &[u8], typed: Result<Val, DeErr>, used: usize) -> R {
    if let Err(DeErr::Message(m)) = &typed {
        if model_err(m) {
            return Err(Broken::Harness(m.clone()));
        }
    }
    let mut rd = MonReader::new(b);
    let (dynm, _) = de_body(h, &mut rd)?;
    match (typed, dynm) {
        (Ok(v), Ok(body)) => {
            let nv = v.normalize_maps();
            let want = guard("wrap", || dynamic::to_body(s, &nv))??;
            ensure!(
                dynamic::body_eq(&body, &want),
                "{}: {} decodes as a type to {} and under its header to {}",
                name, hex(b), v.brief(), clip(&format!("{:?}", body), 300)
            );
            ensure!(used == rd.pos, "{}: {} consumes {} bytes as a type and {} under its header", name, hex(b), used, rd.pos);
            // and both sides write the content the same way
            let a = ser_val(s, &nv)?;
            match ser(&body)? {
                Ok(d) => ensure!(a == d, "{}: content {} is written differently by the type and by the body: {}", name, nv.brief(), diff(&a, &d)),
                Err(e) => vio!("{}: body does not serialize: {:?}", name, e),
            }
            c.count("both_accept", 1);
        }
        (Err(_), Err(_)) => c.count("both_refuse", 1),
        (Ok(v), Err(e)) => vio!("{}: {} is {} as a type but refused under its header: {:?}", name, hex(b), v.brief(), e),
        (Err(e), Ok(body)) => vio!("{}: {} is refused as a type ({:?}) but under its header is {}", name, hex(b), e, clip(&format!("{:?}", body), 300)),
    }
    c.evals(1);
    Ok(())
}

pub fn c08(run: &Run) {
    run.section("shapes", run.n(80_000, 3_000_000), |c| {
        let s = gen_shape(&mut c.rng, 4, HOSTILE_HEADERABLE);
        let h = match dynamic::to_header(&s) {
            Some(h) => h,
            None => return Ok(()),
        };
        let b = some_bytes(c, &s);
        let mut rd = MonReader::new(&b);
        let (t, _) = de_shape(&s, &mut rd)?;
        both(c, &s.brief(), &s, &h, &b, t, rd.pos)?;
        c.seen(shape_hash(&s, &b));
        c.sample(|| format!("{} <- {}", s.brief(), hex(&b)));
        Ok(())
    });
    run.section("valid", run.n(20_000, 800_000), |c| {
        let s = gen_inhabited(&mut c.rng, 4, HEADERABLE);
        let h = match dynamic::to_header(&s) {
            Some(h) => h,
            None => return Ok(()),
        };
        let mut bud = val_budget(&mut c.rng);
        let v = gen_val(&mut c.rng, &s, &mut bud);
        let mut b = Vec::new();
        encode_loose(&v, &mut c.rng, &mut b);
        let mut rd = MonReader::new(&b);
        let (t, _) = de_shape(&s, &mut rd)?;
        both(c, &s.brief(), &s, &h, &b, t, rd.pos)?;
        c.seen(shape_hash(&s, &b));
        Ok(())
    });
    run.section("deeper", DEEP.len() as u64 * run.n(6, 60), |c| {
        let n = DEEP[c.idx as usize % DEEP.len()];
        c.max("deepest_value", n as u64);
        on_big_stack(|| {
            let (s, v) = deep(&mut c.rng, n);
            let h = dynamic::to_header(&s).unwrap();
            let mut b = Vec::new();
            encode_loose(&v, &mut c.rng, &mut b);
            if c.rng.pct(30) && !b.is_empty() && !s.has_zero_width_elements() {
                let i = b.len() - 1 - c.rng.below(b.len().min(300));
                b[i] = c.rng.u8();
            }
            let mut rd = MonReader::new(&b);
            let (t, _) = de_shape(&s, &mut rd)?;
            both(c, "nested", &s, &h, &b, t, rd.pos)?;
            c.seen(shape_hash(&s, &b));
            Ok(())
        })
    });
    let placed = super::typed::placed_cases(run.thorough());
    let places = super::typed::PLACES;
    run.section("placed", (placed.len() * places) as u64 * run.n(1, 4), |c| {
        let i = c.idx as usize % (placed.len() * places);
        let (s, n) = &placed[i / places];
        let v = super::typed::of_len(&mut c.rng, s, *n);
        let (s, v) = super::typed::place(&mut c.rng, i % places, s, v);
        let h = match dynamic::to_header(&s) {
            Some(h) => h,
            None => return Ok(()),
        };
        let mut b = encode(&v);
        match c.rng.below(3) {
            0 => {}
            1 => b.truncate(b.len() - b.len().min(1 + c.rng.below(3))),
            _ if b.is_empty() || s.has_zero_width_elements() => {}
            _ => {
                // the end is where lengths that are cut show
                let n = b.len();
                let i = n - 1 - c.rng.below(n.min(8));
                b[i] = c.rng.u8()
            }
        }
        let mut rd = MonReader::new(&b);
        let (t, _) = de_shape(&s, &mut rd)?;
        both(c, &s.brief(), &s, &h, &b, t, rd.pos)?;
        c.seen(shape_hash(&s, &b));
        Ok(())
    });
    // every two-byte input (and longer ones) of every leaf and small container
    let seq = |s: Shape| Shape::Seq(Box::new(s));
    let small = vec![
        Shape::Bool, Shape::U8, Shape::U16, Shape::U32, Shape::U64, Shape::I8, Shape::I16, Shape::I32, Shape::I64, Shape::F32, Shape::F64,
        Shape::Str, Shape::Bytes, Shape::BigUint, Shape::BigInt, Shape::BigDec, Shape::Date, Shape::DateTime,
        Shape::Opt(Box::new(Shape::Bool)), seq(Shape::Bool), Shape::Map(Box::new(Shape::Bool)),
        Shape::Enum(vec![(0, Variant::Unit), (1, Variant::Newtype(Shape::Bool)), (2, Variant::Tuple(vec![Shape::U8, Shape::Bool]))]),
        seq(Shape::Opt(Box::new(Shape::Unit))), Shape::Struct(vec![Shape::Opt(Box::new(Shape::Unit)), Shape::Bool]),
    ];
    run.section("two-bytes", small.len() as u64 * 256, |c| {
        let s = &small[c.idx as usize / 256];
        let h = dynamic::to_header(s).unwrap();
        for x in 0..=255u8 {
            for tail in 0..2 {
                let mut b = vec![c.idx as u8, x];
                if tail == 1 {
                    let n = c.rng.range(1, 10);
                    b.extend(c.rng.bytes(n));
                }
                let mut rd = MonReader::new(&b);
                let (t, _) = de_shape(s, &mut rd)?;
                both(c, &s.brief(), s, &h, &b, t, rd.pos)?;
            }
        }
        c.seen(mix(77, c.idx));
        Ok(())
    });
    run.section("enums", run.n(10_000, 300_000), |c| {
        let n = *c.rng.pick(&[1usize, 3, 127, 128, 129, 255, 256, 257, 300]);
        let leaf = gen_leaf(&mut c.rng, HEADERABLE);
        let s = Shape::Enum((0..n as u32).map(|i| (i, if i % 3 == 0 { Variant::Unit } else { Variant::Newtype(leaf.clone()) })).collect());
        let i = match c.rng.below(4) {
            0 => c.rng.below(n) as u64 + (256 << c.rng.below(20)),
            1 => n as u64 + c.rng.below(3) as u64,
            _ => c.rng.below(n) as u64,
        };
        let f = varint_forms(i & 0xffff_ffff, 32);
        let mut b = c.rng.pick(&f).clone();
        let n = c.rng.below(30);
        b.extend(c.rng.bytes(n));
        let h = dynamic::to_header(&s).unwrap();
        let mut rd = MonReader::new(&b);
        let (t, _) = de_shape(&s, &mut rd)?;
        both(c, "enum", &s, &h, &b, t, rd.pos)?;
        c.seen(mix(n as u64, hash_bytes(&b)));
        Ok(())
    });
    let es: Vec<_> = corpus::entries().into_iter().filter(|e| e.header_to.is_some() && e.exact && !(e.shape)().has_zero_width_elements()).collect();
    run.section("real-types", es.len() as u64 * run.n(250, 6_000), |c| {
        let e = &es[c.idx as usize % es.len()];
        let s = (e.shape)();
        let hb = match e.header().unwrap()? {
            Ok(b) => b,
            Err(x) => vio!("{} has no header: {:?}", e.name, x),
        };
        let h = match de_header(&mut MonReader::new(&hb))?.0 {
            Ok(h) => h,
            Err(x) => vio!("the header of {} is refused: {:?}", e.name, x),
        };
        let b = some_bytes(c, &s);
        let mut rd = MonReader::new(&b);
        let (t, _) = (e.de)(&mut rd)?;
        both(c, e.name, &s, &h, &b, t, rd.pos)?;
        c.seen(mix(c.idx % es.len() as u64, hash_bytes(&b)));
        Ok(())
    });
}
