//! C05 header codec, C06 reported headers describe bodies.
use super::util::*;
use crate::corpus;
use crate::mon::*;
use crate::{ensure, vio};
use dlhn::Header;
use refmodel::*;

/// Damages header bytes, without building depth.
pub fn damage(r: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..1 + r.below(3) {
        if b.is_empty() {
            b.push(r.below(32) as u8);
            continue;
        }
        let i = r.below(b.len());
        match r.below(8) {
            0 => b[i] = r.u8(),
            1 => b[i] = *r.pick(&[7u8, 12, 22, 27, 28, 31, 32, 64, 127, 128, 255]),
            2 => b.truncate(i),
            3 => {
                b.remove(i);
            }
            4 => b.insert(i, r.below(30) as u8),
            5 => {
                // an inflated count
                let v = *r.pick(&[127u64, 128, 255, 256, 16383, 16384, 32767, 65534, 65535]);
                let mut f = vec![*r.pick(&[21u8, 24])];
                put_varint(&mut f, v, 16);
                b.splice(i..i + 1, f);
            }
            6 => b[i] ^= 1 << r.below(8),
            _ => {
                let f = varint_forms(r.int(16), 16);
                let f = r.pick(&f).clone();
                b.splice(i..i + 1, f);
            }
        }
    }
}

pub fn header_budget(b: &[u8]) -> usize {
    (1 << 20) + 1024 * b.len() + (16 << 10) * b.iter().filter(|x| **x == 21 || **x == 24).count()
}

/// Real decoder against the reference on any bytes.
fn judge(c: &mut Case, b: &[u8]) -> R {
    let want = decode_header(b);
    let mut rd = MonReader::new(b);
    let (got, peak) = de_header(&mut rd)?;
    match (&got, &want) {
        (Ok(h), Ok((w, used, _))) => {
            ensure!(h == w, "header {} is read as {:?} instead of {:?}", hex(b), h, w);
            ensure!(rd.pos == *used, "header {}: {} bytes consumed instead of {}", hex(b), rd.pos, used);
            c.count("accepted", 1);
        }
        (Err(_), Err(_)) => c.count("refused", 1),
        (Err(_), Ok((_, _, true))) => c.count("open_forms", 1),
        (Err(e), Ok((w, _, _))) => vio!("header {} = {:?} is refused: {:?}", hex(b), w, e),
        (Ok(h), Err(f)) => vio!("{} is no header ({:?}) but is read as {:?}", hex(b), f, h),
    }
    let lim = header_budget(b);
    ensure!(peak <= lim, "header of {} bytes ({}) takes {} bytes of memory to read, limit {}", b.len(), hex(b), peak, lim);
    c.max("peak_memory", peak as u64);
    c.evals(1);
    Ok(())
}

fn round_trip(c: &mut Case, h: &Header) -> R {
    let want = encode_header(h);
    let got = ser_header(h)?;
    let want = match (want, got) {
        (None, Err(_)) => {
            c.count("too_large_refused", 1);
            c.evals(1);
            return Ok(());
        }
        (None, Ok(b)) => vio!("a header too large for the format is written as {}", hex(&b)),
        (Some(w), Err(e)) => vio!("header of {} bytes {} is refused: {:?}", w.len(), hex(&w), e),
        (Some(w), Ok(g)) => {
            ensure!(w == g, "header is written differently: {}", diff(&g, &w));
            w
        }
    };
    let mut data = want.clone();
    let extra = c.rng.below(6);
    data.extend(c.rng.bytes(extra));
    let mut rd = MonReader::new(&data);
    let (got, peak) = de_header(&mut rd)?;
    match got {
        Ok(g) => ensure!(g == *h, "header comes back different: {}", hex(&want)),
        Err(e) => vio!("header {} is refused: {:?}", hex(&want), e),
    }
    ensure!(rd.pos == want.len(), "header of {} bytes: {} consumed", want.len(), rd.pos);
    ensure!(peak <= header_budget(&want), "header of {} bytes takes {} bytes of memory", want.len(), peak);
    c.max("peak_memory", peak as u64);
    c.max("header_nodes", dynamic::header_nodes(h) as u64);
    c.max("header_bytes", want.len() as u64);
    c.seen_bytes(&want);
    c.sample(|| format!("{} -> {}", clip(&format!("{:?}", h), 200), hex(&want)));
    Ok(())
}

pub fn c05(run: &Run) {
    run.section("round-trip", run.n(40_000, 2_000_000), |c| {
        let d = c.rng.range(0, 6);
        let h = gen_header(&mut c.rng, d);
        round_trip(c, &h)
    });
    run.section("nested", run.n(1_000, 40_000), |c| {
        let mut h = gen_header(&mut c.rng, 2);
        for _ in 0..c.rng.range(10, 300) {
            h = match c.rng.below(5) {
                0 => Header::Optional(Box::new(h)),
                1 => Header::Array(Box::new(h)),
                2 => Header::Map(Box::new(h)),
                3 => Header::Tuple(vec![leaf_header(&mut c.rng), h]),
                _ => Header::Enum(vec![h, leaf_header(&mut c.rng), Header::Unit]),
            }
        }
        round_trip(c, &h)
    });
    run.section("deeper", DEEP.len() as u64 * run.n(8, 80), |c| {
        let n = DEEP[c.idx as usize % DEEP.len()];
        c.max("deepest_header", n as u64);
        on_big_stack(|| {
            let (s, _) = deep(&mut c.rng, n);
            let h = dynamic::to_header(&s).unwrap();
            round_trip(c, &h)?;
            let mut b = encode_header(&h).unwrap();
            let i = c.rng.below(b.len());
            b.truncate(i);
            judge(c, &b)
        })
    });
    let counts: Vec<usize> = vec![
        0, 1, 2, 63, 64, 126, 127, 128, 129, 130, 254, 255, 256, 257, 511, 512, 1000, 8191, 8192, 16382, 16383, 16384,
        16385, 16386, 32766, 32767, 32768, 65533, 65534, 65535, 65536, 65537, 65536 + 127, 65536 + 128, 70000, 131071, 131072, 131073, 200_000,
    ];
    run.section("counts", counts.len() as u64 * 6 * run.n(1, 10), |c| {
        let k = c.idx as usize % (counts.len() * 6);
        let n = counts[k / 6];
        let one = leaf_header(&mut c.rng);
        let mut v = vec![one; n];
        for _ in 0..20 {
            if n > 0 {
                let i = c.rng.below(n);
                v[i] = gen_header(&mut c.rng, 1);
            }
        }
        let h = if k % 2 == 0 { Header::Tuple(v) } else { Header::Enum(v) };
        let h = match (k / 2) % 3 {
            0 => h,
            1 => Header::Optional(Box::new(Header::Tuple(vec![Header::Boolean, h]))),
            _ => Header::Array(Box::new(Header::Enum(vec![Header::Map(Box::new(h)), Header::Unit]))),
        };
        c.count("count_boundaries", 1);
        round_trip(c, &h)?;
        if n > 100 {
            return Ok(());
        }
        // truncations of it
        if let Some(b) = encode_header(&h) {
            for p in 0..b.len() {
                judge(c, &b[..p])?;
            }
        }
        Ok(())
    });
    // every header of up to three bytes, and every first byte with every varint prefix after it
    run.section("three-bytes", 65536, |c| {
        let a = (c.idx >> 8) as u8;
        let b = c.idx as u8;
        if b == 0 {
            judge(c, &[a])?;
            if a == 0 {
                judge(c, &[])?;
            }
        }
        judge(c, &[a, b])?;
        // a three-byte header differs from a two-byte one only where the first two ask for more
        if matches!(a, 1 | 20 | 21 | 23 | 24) || c.thorough() {
            for x in 0..=255u8 {
                judge(c, &[a, b, x])?;
            }
        } else {
            let x = c.rng.u8();
            judge(c, &[a, b, x])?;
        }
        c.seen(mix(1, c.idx));
        Ok(())
    });
    run.section("damaged", run.n(80_000, 4_000_000), |c| {
        let d = c.rng.range(0, 5);
        let h = gen_header(&mut c.rng, d);
        let mut b = encode_header(&h).unwrap_or_default();
        damage(&mut c.rng, &mut b);
        judge(c, &b)?;
        c.seen_bytes(&b);
        c.sample(|| format!("damaged: {}", hex(&b)));
        Ok(())
    });
    run.section("truncated", run.n(4_000, 150_000), |c| {
        let h = gen_header(&mut c.rng, 4);
        let b = encode_header(&h).unwrap_or_default();
        let n = b.len();
        for _ in 0..20 {
            let p = c.rng.below(n);
            let mut rd = MonReader::new(&b[..p]);
            let (got, _) = de_header(&mut rd)?;
            ensure!(got.is_err(), "{} of {} bytes of a header are read as {:?}: {}", p, n, got, hex(&b));
            c.evals(1);
        }
        c.count("truncations", 20);
        c.seen_bytes(&b);
        Ok(())
    });
    // claimed counts with little behind them, nested: memory must follow the bytes supplied
    run.section("inflated", run.n(4_000, 100_000), |c| {
        let mut b = Vec::new();
        let levels = c.rng.range(1, 60);
        for _ in 0..levels {
            match c.rng.below(8) {
                0 => b.push(*c.rng.pick(&[1u8, 20, 23])),
                _ => {
                    b.push(*c.rng.pick(&[21u8, 24]));
                    let n = if c.rng.pct(70) { 65535 } else { c.rng.range(1000, 65535) as u64 };
                    put_varint(&mut b, n, 16);
                    for _ in 0..c.rng.below(4) {
                        b.push(header_leaf_code(&leaf_header(&mut c.rng)).unwrap());
                    }
                }
            }
        }
        c.count("inflated_levels", levels as u64);
        judge(c, &b)?;
        c.seen_bytes(&b);
        Ok(())
    });
    let es: Vec<_> = corpus::entries().into_iter().filter(|e| e.header_to.is_some()).collect();
    run.section("reported", es.len() as u64, |c| {
        let e = &es[c.idx as usize];
        type_header(c, e)?;
        Ok(())
    });
    known_deep_header(run);
}

pub fn known_deep_header(run: &Run) {
    if run.cfg.replay.is_some() {
        return;
    }
    match run.probe(&["deep-header"], 60) {
        ProbeEnd::Signal(_) => run.known(format!(
            "KNOWN-FINDING: property={} deeply nested header bytes (2000000 times 0x01) overflow the stack and abort the process",
            run.cfg.prop
        )),
        ProbeEnd::Code(0) => {}
        e => run.harness_error(format!("probe deep-header ended with {:?}", e)),
    }
    run.count("probes", 1);
}

/// The header a real type reports, checked against its model.
fn type_header(c: &mut Case, e: &corpus::Entry) -> R<Header> {
    let b = match e.header().unwrap()? {
        Ok(b) => b,
        Err(x) => vio!("{} does not report a header: {:?}", e.name, x),
    };
    let want = dynamic::to_header(&(e.shape)()).ok_or_else(|| Broken::Harness(format!("no model header for {}", e.name)))?;
    let wb = encode_header(&want).unwrap();
    ensure!(b == wb, "{} reports the header {} instead of {}", e.name, hex(&b), hex(&wb));
    let mut rd = MonReader::new(&b);
    let (h, _) = de_header(&mut rd)?;
    let h = match h {
        Ok(h) => h,
        Err(x) => vio!("the header {} of {} is refused: {:?}", hex(&b), e.name, x),
    };
    ensure!(h == want && rd.pos == b.len(), "the header {} of {} is read as {:?}", hex(&b), e.name, h);
    c.count("type_headers", 1);
    c.seen_bytes(&b);
    Ok(h)
}

/// A serialized value of a type, under the type's header.
pub fn describes(c: &mut Case, name: &str, s: &Shape, h: &Header, v: &Val, b: &[u8]) -> R {
    let mut data = b.to_vec();
    data.extend_from_slice(&[1, 0, 0xff]);
    let mut rd = MonReader::new(&data);
    let (got, _) = de_body(h, &mut rd)?;
    let body = match got {
        Ok(x) => x,
        Err(e) => vio!("{} {} = {} is refused under its own header {:?}: {:?}", name, v.brief(), hex(b), h, e),
    };
    ensure!(rd.pos == b.len(), "{}: {} of {} bytes consumed under its own header: {}", name, rd.pos, b.len(), hex(b));
    ensure!(validate(&body, h)?, "{} {} decoded under its own header does not validate", name, v.brief());
    let nv = v.normalize_maps();
    let want = guard("wrap", || dynamic::to_body(s, &nv))??;
    ensure!(dynamic::body_eq(&body, &want), "{} {} has other content under its header: {:?}", name, v.brief(), clip(&format!("{:?}", body), 400));
    let back = match ser(&body)? {
        Ok(x) => x,
        Err(e) => vio!("{}: the body decoded under its header does not serialize: {:?}", name, e),
    };
    let same = encode(&nv);
    ensure!(back == same, "{}: body re-serialized: {}", name, diff(&back, &same));
    c.count("bodies_under_headers", 1);
    Ok(())
}

pub fn c06(run: &Run) {
    let es: Vec<_> = corpus::entries().into_iter().filter(|e| e.header_to.is_some()).collect();
    run.section("real-types", es.len() as u64 * run.n(250, 8_000), |c| {
        let e = &es[c.idx as usize % es.len()];
        let h = type_header(c, e)?;
        let budget = val_budget(&mut c.rng);
        let (v, b) = e.gen_ser(&mut c.rng, budget)?;
        let b = match b {
            Ok(b) => b,
            Err(x) => vio!("{} {} does not serialize: {:?}", e.name, v.brief(), x),
        };
        describes(c, e.name, &(e.shape)(), &h, &v, &b)?;
        c.seen(mix(c.idx % es.len() as u64, hash_bytes(&b)));
        c.sample(|| format!("{}: {} under {}", e.name, hex(&b), clip(&format!("{:?}", h), 150)));
        Ok(())
    });
    run.section("deeper", DEEP.len() as u64 * run.n(6, 60), |c| {
        let n = DEEP[c.idx as usize % DEEP.len()];
        c.max("deepest_value", n as u64);
        on_big_stack(|| {
            let (s, v) = deep(&mut c.rng, n);
            let h = dynamic::to_header(&s).unwrap();
            let b = ser_val(&s, &v)?;
            describes(c, "nested", &s, &h, &v, &b)?;
            c.seen(shape_hash(&s, &b));
            Ok(())
        })
    });
    run.section("shapes", run.n(20_000, 800_000), |c| {
        let s = gen_inhabited(&mut c.rng, 4, HEADERABLE);
        let h = match dynamic::to_header(&s) {
            Some(h) => h,
            None => return Ok(()),
        };
        let mut b = val_budget(&mut c.rng);
        let v = gen_val(&mut c.rng, &s, &mut b);
        let b = ser_val(&s, &v)?;
        describes(c, &s.brief(), &s, &h, &v, &b)?;
        c.seen(shape_hash(&s, &b));
        Ok(())
    });
    run.count("real_types", es.len() as u64);
}
