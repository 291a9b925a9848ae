//! C24: values compare by what they hold.
use super::headers::damage;
use super::util::*;
use crate::corpus;
use crate::mon::*;
use crate::ensure;
use dlhn::{Body, Deserializer, Header};
use refmodel::*;
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Equality as the operators show it, in both directions.
fn equal<T: PartialEq + Debug>(what: &str, a: &T, b: &T, want: bool) -> R {
    let got = guard("==", || (a == b, b == a, a != b, b != a))?;
    ensure!(
        got == (want, want, !want, !want),
        "{}: {} and {} hold {} but compare (==, !=, both ways) as {:?}",
        what, clip(&format!("{:?}", a), 300), clip(&format!("{:?}", b), 300),
        if want { "the same" } else { "different things" }, got
    );
    Ok(())
}

fn again<T: Serialize + DeserializeOwned>(t: &T) -> R<T> {
    let b = match ser(t)? {
        Ok(b) => b,
        Err(e) => return Err(Broken::Vio(format!("cannot be written: {:?}", e))),
    };
    match guard("deserialize", || T::deserialize(&mut Deserializer::new(&mut b.as_slice())))? {
        Ok(t) => Ok(t),
        Err(e) => Err(Broken::Vio(format!("{} cannot be read: {:?}", hex(&b), e))),
    }
}

/// What holds of every type with equality, order and hash. `order` of a pair where it is known.
fn laws<T: Clone + Ord + Hash + Debug + Serialize + DeserializeOwned>(c: &mut Case, what: &str, v: &[T], order: impl Fn(usize, usize) -> Option<Ordering>) -> R {
    for i in 0..v.len() {
        let a = &v[i];
        let cl = guard("clone", || a.clone())?;
        equal(what, a, &cl, true)?;
        ensure!(hash(a) == hash(&cl), "{}: a clone of {:?} hashes differently", what, a);
        let back = again(a)?;
        equal(what, a, &back, true)?;
        ensure!(hash(a) == hash(&back), "{}: {:?} hashes differently once read back", what, a);
        for j in 0..v.len() {
            let b = &v[j];
            let (x, y) = guard("cmp", || (a.cmp(b), b.cmp(a)))?;
            ensure!(x == y.reverse(), "{}: {:?} is {:?} {:?} but the other way round {:?}", what, a, x, b, y);
            ensure!((x == Ordering::Equal) == (a == b), "{}: cmp of {:?} and {:?} is {:?}, == is {}", what, a, b, x, a == b);
            ensure!(
                a.partial_cmp(b) == Some(x) && (a < b) == (x == Ordering::Less) && (a > b) == (x == Ordering::Greater) && (a <= b) == (x != Ordering::Greater),
                "{}: cmp and the operators disagree on {:?} and {:?}", what, a, b
            );
            if a == b {
                ensure!(hash(a) == hash(b), "{}: {:?} and {:?} are equal but hash differently", what, a, b);
            }
            if let Some(want) = order(i, j) {
                ensure!(x == want, "{}: {:?} should be {:?} compared with {:?}, is {:?}", what, a, want, b, x);
            }
            ensure!(guard("max", || (a.clone().max(b.clone()), a.clone().min(b.clone())))? == if x == Ordering::Greater { (a.clone(), b.clone()) } else { (b.clone(), a.clone()) } || x == Ordering::Equal, "{}: max or min of {:?} and {:?}", what, a, b);
            for k in v {
                if x == Ordering::Less && b.cmp(k) == Ordering::Less {
                    ensure!(a.cmp(k) == Ordering::Less, "{}: {:?} < {:?} < {:?} but not < the last", what, a, b, k);
                }
            }
            c.evals(3);
        }
    }
    let mut s = v.to_vec();
    s.sort();
    s.dedup();
    let n = s.len();
    let set: std::collections::HashSet<T> = v.iter().cloned().collect();
    let tree: std::collections::BTreeSet<T> = v.iter().cloned().collect();
    ensure!(n == set.len() && n == tree.len(), "{}: {} distinct values sorted, {} hashed, {} in a tree", what, n, set.len(), tree.len());
    c.count("distinct_of_a_group", n as u64);
    Ok(())
}

fn val_eq(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::F32(a), Val::F32(b)) => f32::from_bits(*a) == f32::from_bits(*b),
        (Val::F64(a), Val::F64(b)) => f64::from_bits(*a) == f64::from_bits(*b),
        (Val::Some(a), Val::Some(b)) => val_eq(a, b),
        (Val::Enum(i, a), Val::Enum(j, b)) => i == j && val_eq(a, b),
        (Val::Seq(a), Val::Seq(b)) | (Val::Tuple(a), Val::Tuple(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| val_eq(a, b)),
        (Val::Map(a), Val::Map(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.0 == b.0 && val_eq(&a.1, &b.1)),
        _ => a == b,
    }
}

fn headers(c: &mut Case) -> R {
    let r = &mut c.rng;
    let mut v: Vec<(Header, Vec<u8>)> = vec![];
    while v.len() < 3 {
        let h = gen_header(r, 3);
        if let Some(b) = encode_header(&h) {
            // neighbours: one thing changed
            for _ in 0..4 {
                let mut d = b.clone();
                damage(r, &mut d);
                if let Ok((h, n, false)) = decode_header(&d) {
                    d.truncate(n);
                    if let Some(b) = encode_header(&h) {
                        v.push((h, b));
                    }
                }
            }
            v.push((h, b));
        }
    }
    v.truncate(10);
    let mut same = 0;
    for (a, x) in &v {
        equal("headers", a, &guard("clone", || a.clone())?, true)?;
        for (b, y) in &v {
            equal("headers", a, b, x == y)?;
            same += (x == y) as u64;
        }
        let (back, _) = de_header(&mut MonReader::new(x))?;
        match back {
            Ok(back) => equal("headers", a, &back, true)?,
            Err(e) => return Err(Broken::Vio(format!("header {} cannot be read: {:?}", hex(x), e))),
        }
    }
    c.count("equal_pairs", same);
    c.count("different_pairs", (v.len() * v.len()) as u64 - same);
    c.evals((v.len() * v.len()) as u64);
    let h = hash_bytes(&v.iter().flat_map(|x| x.1.clone()).collect::<Vec<u8>>());
    c.seen(h);
    c.sample(|| format!("{:?}", v[0].0));
    Ok(())
}

fn bodies(c: &mut Case) -> R {
    let r = &mut c.rng;
    let (s, _) = loop {
        let s = gen_inhabited(r, 3, HEADERABLE);
        if let Some(h) = dynamic::to_header(&s) {
            break (dynamic::header_shape(&h), h);
        }
    };
    let mut b = if r.pct(10) { 2_000 } else { 60 };
    let v = gen_val(r, &s, &mut b).normalize_maps();
    let e = encode(&v);
    let mut vals = vec![v.clone(), v];
    for _ in 0..12 {
        if e.is_empty() {
            break;
        }
        let mut d = e.clone();
        let i = r.below(d.len());
        d[i] = match r.below(3) {
            0 => d[i] ^ 1 << r.below(8),
            1 => d[i].wrapping_add(1),
            _ => r.u8(),
        };
        if let Ok(x) = decode(&s, &d) {
            if !x.open {
                vals.push(x.val.normalize_maps());
            }
        }
    }
    let s2 = gen_inhabited(r, 1, HEADERABLE);
    if let Some(h) = dynamic::to_header(&s2) {
        let s2 = dynamic::header_shape(&h);
        vals.push(gen_val(r, &s2, &mut 10).normalize_maps());
        let mut made = vec![];
        for (i, v) in vals.iter().enumerate() {
            let s = if i + 1 == vals.len() { &s2 } else { &s };
            made.push(guard("wrap", || dynamic::to_body(s, v))??);
        }
        let mut same = 0;
        // the last is of another type: an equal content could still be an equal body
        for i in 0..made.len() - 1 {
            let (a, x) = (&made[i], &vals[i]);
            equal("bodies", a, &guard("clone", || a.clone())?, val_eq(x, x))?;
            for j in 0..made.len() - 1 {
                let want = val_eq(x, &vals[j]);
                equal("bodies", a, &made[j], want)?;
                same += want as u64;
                c.evals(1);
            }
            let o = made.last().unwrap();
            let got = guard("==", || (a == o, o == a))?;
            ensure!(got.0 == got.1, "bodies: == is {} one way and {} the other", got.0, got.1);
            ensure!(!got.0 || val_eq(x, vals.last().unwrap()) || encode(x) == encode(vals.last().unwrap()) || format!("{:?}", a) == format!("{:?}", o), "bodies: {:?} equals {:?}", a, o);
        }
        c.count("equal_pairs", same);
        c.count("different_pairs", ((made.len() - 1) * (made.len() - 1)) as u64 - same);
        // kinds with the same content are different values
        for (a, b) in [
            (Body::Array(vec![made[0].clone()]), Body::Tuple(vec![made[0].clone()])),
            (Body::Optional(None), Body::Unit),
            (Body::Optional(Some(Box::new(made[0].clone()))), made[0].clone()),
            (Body::Enum(0, Box::new(made[0].clone())), Body::Enum(1, Box::new(made[0].clone()))),
            (Body::UInt8(1), Body::Int8(1)),
            (Body::UInt16(1), Body::UInt32(1)),
            (Body::String("a".into()), Body::Binary(b"a".to_vec().into())),
            (Body::Array(vec![]), Body::Map(Default::default())),
        ] {
            // an option around itself without end would be the only exception
            equal("bodies", &a, &b, false)?;
        }
    }
    c.seen(shape_hash(&s, &e));
    Ok(())
}

/// Numbers that are equal, near or far.
fn near(r: &mut Rng, signed: bool) -> Vec<Vec<u8>> {
    let n = r.below(24);
    let base = gen_big_bytes(r, signed, n);
    let mut v = vec![base.clone(), base.clone()];
    for _ in 0..5 {
        let mut b = base.clone();
        match r.below(5) {
            0 if !b.is_empty() => {
                let i = r.below(b.len());
                b[i] ^= 1 << r.below(8)
            }
            1 => b.push(1),
            2 => b.insert(0, 0),
            3 => {
                b.pop();
            }
            _ => {
                let n = r.below(24);
                b = gen_big_bytes(r, signed, n)
            }
        }
        v.push(b);
    }
    v
}

fn numbers(c: &mut Case) -> R {
    use num_bigint::{BigInt, BigUint};
    let bs = near(&mut c.rng, false);
    let us: Vec<BigUint> = bs.iter().map(|b| BigUint::from_bytes_le(b)).collect();
    let w: Vec<dlhn::BigUint> = guard("convert", || us.iter().map(|x| x.clone().into()).collect())?;
    for i in 0..us.len() {
        for j in 0..us.len() {
            equal("big unsigned integers", &w[i], &w[j], us[i] == us[j])?;
        }
    }
    laws(c, "big unsigned integers", &w, |_, _| None)?;
    let bs = near(&mut c.rng, true);
    let is: Vec<BigInt> = bs.iter().map(|b| BigInt::from_signed_bytes_le(b)).collect();
    let w: Vec<dlhn::BigInt> = guard("convert", || is.iter().map(|x| x.clone().into()).collect())?;
    for i in 0..is.len() {
        for j in 0..is.len() {
            equal("big integers", &w[i], &w[j], is[i] == is[j])?;
        }
    }
    laws(c, "big integers", &w, |_, _| None)?;
    // of decimals, equal digits and scale are equal, different numbers different
    let ds: Vec<(BigInt, i64)> = is
        .iter()
        .map(|i| (i.clone(), *c.rng.pick(&[0, 0, 1, -1, 2, 100, -100, 1 << 40])))
        .collect();
    let w: Vec<dlhn::BigDecimal> = guard("convert", || ds.iter().map(|(i, s)| bigdecimal::BigDecimal::new(i.clone(), *s).into()).collect())?;
    for i in 0..ds.len() {
        for j in 0..ds.len() {
            if ds[i] == ds[j] {
                equal("big decimals", &w[i], &w[j], true)?;
            } else if ds[i].1 == ds[j].1 || (ds[i].0 == ds[j].0 && ds[i].0 != BigInt::from(0)) {
                equal("big decimals", &w[i], &w[j], false)?;
            }
        }
    }
    laws(c, "big decimals", &w, |_, _| None)?;
    c.seen_bytes(&bs.concat());
    Ok(())
}

/// Values out of bytes the crate would not write: only the laws are known to hold of them.
fn unusual(c: &mut Case) -> R {
    use num_bigint::{BigInt, BigUint};
    fn read<T: DeserializeOwned>(b: &[u8]) -> R<Option<T>> {
        guard("deserialize", || T::deserialize(&mut Deserializer::new(&mut &b[..])).ok())
    }
    let mut raw: Vec<Vec<u8>> = vec![];
    let n = c.rng.below(4);
    let base: Vec<u8> = (0..n).map(|_| *c.rng.pick(&[0, 0, 1, 127, 128, 255])).collect();
    raw.push(base.clone());
    for _ in 0..5 {
        let mut b = base.clone();
        for _ in 0..1 + c.rng.below(2) {
            b.push(*c.rng.pick(&[0, 0, 255, 255, 1]));
        }
        raw.push(b);
    }
    let wire = |b: &[u8]| [&[b.len() as u8][..], b].concat();
    let (mut us, mut is, mut ds) = (vec![], vec![], vec![]);
    for b in &raw {
        us.extend(read::<dlhn::BigUint>(&wire(b))?);
        is.extend(read::<dlhn::BigInt>(&wire(b))?);
        for s in [0u8, 0, 2, 3] {
            let s = if s == 0 { 0 } else { *c.rng.pick(&[s, 1]) };
            ds.extend(read::<dlhn::BigDecimal>(&[wire(b), vec![s]].concat())?);
        }
    }
    ds.truncate(14);
    laws(c, "unusual big unsigned integers", &us, |_, _| None)?;
    laws(c, "unusual big integers", &is, |_, _| None)?;
    laws(c, "unusual big decimals", &ds, |_, _| None)?;
    for a in &us {
        for b in &us {
            if a == b {
                let (x, y): (BigUint, BigUint) = guard("into", || (a.clone().into(), b.clone().into()))?;
                ensure!(x == y, "{:?} and {:?} are equal but {} and {}", a, b, x, y);
            }
        }
    }
    for a in &is {
        for b in &is {
            if a == b {
                let (x, y): (BigInt, BigInt) = guard("into", || (a.clone().into(), b.clone().into()))?;
                ensure!(x == y, "{:?} and {:?} are equal but {} and {}", a, b, x, y);
            }
        }
    }
    for a in &ds {
        for b in &ds {
            if a == b {
                let (x, y): (bigdecimal::BigDecimal, bigdecimal::BigDecimal) = guard("into", || (a.clone().into(), b.clone().into()))?;
                ensure!(x == y, "{:?} and {:?} are equal but {:?} and {:?}", a, b, x, y);
            }
        }
    }
    // dates and moments past what the time crate holds
    let (mut dv, mut tv) = (vec![], vec![]);
    for _ in 0..8 {
        let mut b = vec![];
        for _ in 0..14 {
            b.push(*c.rng.pick(&[0, 1, 2, 3, 100, 127, 128, 129, 255, 255]));
        }
        dv.extend(read::<dlhn::Date>(&b)?);
        tv.extend(read::<dlhn::DateTime>(&b)?);
    }
    laws(c, "unusual dates", &dv, |_, _| None)?;
    laws(c, "unusual moments", &tv, |_, _| None)?;
    c.seen_bytes(&raw.concat());
    Ok(())
}

fn dates(c: &mut Case) -> R {
    let r = &mut c.rng;
    let d = corpus::gen_time_date(r);
    let mut v = vec![d, d];
    for _ in 0..6 {
        let days = *r.pick(&[1i64, -1, 2, 30, -31, 365, -366, 127, 128, 36_525]);
        v.extend(d.checked_add(time::Duration::days(days)));
    }
    v.push(corpus::gen_time_date(r));
    let w: Vec<dlhn::Date> = guard("convert", || v.iter().map(|x| (*x).into()).collect())?;
    laws(c, "dates", &w, |i, j| Some(v[i].cmp(&v[j])))?;
    let r = &mut c.rng;
    let t = corpus::gen_odt(r);
    let mut v = vec![t, t];
    for _ in 0..6 {
        let by = match r.below(4) {
            0 => time::Duration::nanoseconds(1 - 2 * r.below(2) as i64),
            1 => time::Duration::seconds(1 - 2 * r.below(2) as i64),
            2 => time::Duration::nanoseconds(r.int(31) as i64),
            _ => time::Duration::days(r.below(800) as i64 - 400),
        };
        v.extend(t.checked_add(by));
    }
    v.push(corpus::gen_odt(r));
    let w: Vec<dlhn::DateTime> = guard("convert", || v.iter().map(|x| (*x).into()).collect())?;
    laws(c, "moments", &w, |i, j| Some(v[i].cmp(&v[j])))?;
    let h = hash_bytes(format!("{:?}{:?}", d, t).as_bytes());
    c.seen(h);
    Ok(())
}

pub fn c24(run: &Run) {
    run.section("headers", run.n(3_000, 200_000), headers);
    run.section("bodies", run.n(3_000, 200_000), bodies);
    run.section("numbers", run.n(1_500, 100_000), numbers);
    run.section("unusual", run.n(1_500, 100_000), unusual);
    run.section("dates", run.n(1_500, 100_000), dates);
}
