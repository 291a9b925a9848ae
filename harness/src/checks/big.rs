//! C12 big numbers.
use super::util::*;
use crate::corpus::*;
use super::util::ser;
use crate::mon::*;
use crate::{ensure, vio};
use dlhn::{Deserializer, Serializer};
use num_bigint::{BigInt, BigUint, Sign};
use refmodel::*;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize)]
struct FU(#[serde(with = "dlhn::format::big_uint")] BigUint);
#[derive(Serialize, Deserialize)]
struct FI(#[serde(with = "dlhn::format::big_int")] BigInt);
#[derive(Serialize, Deserialize)]
struct FD(#[serde(with = "dlhn::format::big_decimal")] bigdecimal::BigDecimal);

/// Decimals as digits and scale: comparing them as numbers would expand the scale.
type Dec = (BigInt, i64);

fn parts(d: bigdecimal::BigDecimal) -> Dec {
    d.into_bigint_and_exponent()
}

/// Memory an operation on a number of this size may take: never a function of the scale.
fn lim(n: usize) -> usize {
    (64 << 10) + 256 * n
}

fn write<T: Serialize>(c: &mut Case, what: &str, t: impl FnOnce() -> T, n: usize, want: &[u8]) -> R {
    let (r, peak) = guard_mem(what, CAP, || {
        let t = t();
        let mut out = Vec::new();
        t.serialize(&mut Serializer::new(&mut out)).map(|_| out)
    })?;
    match r {
        Ok(b) => ensure!(b == want, "{} writes {} instead of {}", what, hex(&b), hex(want)),
        Err(e) => vio!("{} fails: {:?}", what, e),
    }
    ensure!(peak <= lim(n), "{} of a number of {} bytes takes {} bytes of memory", what, n, peak);
    c.max("peak_memory", peak as u64);
    c.evals(1);
    Ok(())
}

fn read<T>(c: &mut Case, what: &str, b: &[u8], f: impl FnOnce(&mut Deserializer<&[u8]>) -> Result<T, DeErr>) -> R<Result<T, DeErr>> {
    let mut data = b.to_vec();
    data.extend_from_slice(&[9, 0xff, 0]);
    let mut rd = data.as_slice();
    let (r, peak) = guard_mem(what, CAP, || f(&mut Deserializer::new(&mut rd)))?;
    if r.is_ok() {
        ensure!(rd.len() == 3, "{}: {} bytes consumed of {}", what, data.len() - rd.len(), hex(b));
    }
    ensure!(peak <= lim(b.len()), "{} of {} bytes takes {} bytes of memory", what, b.len(), peak);
    c.evals(1);
    Ok(r)
}

fn uint(c: &mut Case, n: &BigUint) -> R {
    let v = big_uint_val(n);
    let want = encode(&v);
    write(c, "the wrapper of a big uint", || dlhn::BigUint::from(n.clone()), want.len(), &want)?;
    write(c, "format::big_uint", || FU(n.clone()), want.len(), &want)?;
    let a = read(c, "the wrapper of a big uint", &want, |d| dlhn::BigUint::deserialize(d).map(|x| -> BigUint { x.into() }))?;
    ensure!(a.as_ref() == Ok(n), "the wrapper reads {:x} back as {:?}", n, a);
    let b = read(c, "format::big_uint", &want, |d| FU::deserialize(d).map(|x| x.0))?;
    ensure!(b.as_ref() == Ok(n), "format::big_uint reads {:x} back as {:?}", n, b);
    // two routes to the same wrapper are the same wrapper
    let w = guard("wrap", || dynamic::wrap::<dlhn::BigUint>(&v))??;
    ensure!(w == dlhn::BigUint::from(n.clone()), "wrappers of {:x} made from the number and from bytes differ", n);
    c.seen(mix(1, hash_bytes(&want)));
    c.sample(|| format!("uint {:x} -> {}", n, hex(&want)));
    Ok(())
}

fn int(c: &mut Case, n: &BigInt) -> R {
    let v = big_int_val(n);
    let want = encode(&v);
    write(c, "the wrapper of a big int", || dlhn::BigInt::from(n.clone()), want.len(), &want)?;
    write(c, "format::big_int", || FI(n.clone()), want.len(), &want)?;
    let a = read(c, "the wrapper of a big int", &want, |d| dlhn::BigInt::deserialize(d).map(|x| -> BigInt { x.into() }))?;
    ensure!(a.as_ref() == Ok(n), "the wrapper reads {:x} back as {:?}", n, a);
    let b = read(c, "format::big_int", &want, |d| FI::deserialize(d).map(|x| x.0))?;
    ensure!(b.as_ref() == Ok(n), "format::big_int reads {:x} back as {:?}", n, b);
    let w = guard("wrap", || dynamic::wrap::<dlhn::BigInt>(&v))??;
    ensure!(w == dlhn::BigInt::from(n.clone()), "wrappers of {:x} made from the number and from bytes differ", n);
    c.seen(mix(2, hash_bytes(&want)));
    c.sample(|| format!("int {:x} -> {}", n, hex(&want)));
    Ok(())
}

/// A decimal given as digits and scale, `zeros` more trailing zeros in the digits.
fn dec(c: &mut Case, digits: &BigInt, scale: i64, zeros: u32) -> R {
    use num_traits::Pow;
    let d = digits * BigInt::from(10).pow(zeros);
    let sc = match scale.checked_add(zeros as i64) {
        Some(s) => s,
        None => return Ok(()),
    };
    let mk = || bigdecimal::BigDecimal::new(d.clone(), sc);
    let v = big_dec_val(&mk());
    let want = encode(&v);
    let size = twos(&d).len();
    write(c, "the wrapper of a big decimal", || dlhn::BigDecimal::from(mk()), size, &want)?;
    write(c, "format::big_decimal", || FD(mk()), size, &want)?;
    let canon: Dec = match &v {
        Val::BigDec(b, s) => (from_twos(b), *s),
        _ => unreachable!(),
    };
    let a = read(c, "the wrapper of a big decimal", &want, |d| {
        dlhn::BigDecimal::deserialize(d).map(|x| -> bigdecimal::BigDecimal { x.into() }).map(parts)
    })?;
    ensure!(same_dec(&a, &canon), "the wrapper reads {}e-{} back as {:?}", canon.0, canon.1, a);
    let b = read(c, "format::big_decimal", &want, |d| FD::deserialize(d).map(|x| parts(x.0)))?;
    ensure!(same_dec(&b, &canon), "format::big_decimal reads {}e-{} back as {:?}", canon.0, canon.1, b);
    let w = guard("wrap", || dynamic::wrap::<dlhn::BigDecimal>(&v))??;
    let w2 = guard("From<BigDecimal>", || dlhn::BigDecimal::from(mk()))?;
    ensure!(w == w2, "wrappers of {}e-{} made from the number and from bytes differ", d, sc);
    c.seen(mix(3, hash_bytes(&want)));
    c.sample(|| format!("decimal {} scale {} -> {}", clip(&d.to_string(), 100), sc, hex(&want)));
    Ok(())
}

fn same_dec(a: &Result<Dec, DeErr>, b: &Dec) -> bool {
    use num_traits::Zero;
    match a {
        Ok(x) => x == b || (x.0.is_zero() && b.0.is_zero()),
        _ => false,
    }
}

/// Two's complement by arithmetic: sum of bytes, minus 2^n if the sign bit is set.
fn from_twos(b: &[u8]) -> BigInt {
    let mut n = BigInt::from_bytes_le(Sign::Plus, b);
    if b.last().is_some_and(|l| *l >= 0x80) {
        n -= BigInt::from(1) << (8 * b.len());
    }
    n
}

fn raw(c: &mut Case, b: &[u8], scale: i64) -> R {
    // the same payload as every kind
    let mut e = Vec::new();
    put_varint(&mut e, b.len() as u64, 64);
    e.extend_from_slice(b);
    let u = BigUint::from_bytes_le(b);
    let i = from_twos(b);
    let g = read(c, "the wrapper of a big uint", &e, |d| dlhn::BigUint::deserialize(d).map(|x| -> BigUint { x.into() }))?;
    ensure!(g.as_ref() == Ok(&u), "{} converts to the big uint {:?} instead of {}", hex(&e), g, u);
    let g = read(c, "format::big_uint", &e, |d| FU::deserialize(d).map(|x| x.0))?;
    ensure!(g.as_ref() == Ok(&u), "{} is read as the big uint {:?} instead of {}", hex(&e), g, u);
    let g = read(c, "the wrapper of a big int", &e, |d| dlhn::BigInt::deserialize(d).map(|x| -> BigInt { x.into() }))?;
    ensure!(g.as_ref() == Ok(&i), "{} converts to the big int {:?} instead of {}", hex(&e), g, i);
    let g = read(c, "format::big_int", &e, |d| FI::deserialize(d).map(|x| x.0))?;
    ensure!(g.as_ref() == Ok(&i), "{} is read as the big int {:?} instead of {}", hex(&e), g, i);
    // wrappers keep what they received, byte for byte
    let w = guard("wrap", || dynamic::wrap::<dlhn::BigInt>(&Val::BigInt(b.to_vec())))??;
    match ser(&w)? {
        Ok(x) => ensure!(x == e, "a big int wrapper received as {} is written as {}", hex(&e), hex(&x)),
        Err(x) => vio!("a received big int wrapper does not serialize: {:?}", x),
    }
    let w = guard("wrap", || dynamic::wrap::<dlhn::BigUint>(&Val::BigUint(b.to_vec())))??;
    match ser(&w)? {
        Ok(x) => ensure!(x == e, "a big uint wrapper received as {} is written as {}", hex(&e), hex(&x)),
        Err(x) => vio!("a received big uint wrapper does not serialize: {:?}", x),
    }
    if !b.is_empty() {
        put_varint(&mut e, zig(scale), 64);
    }
    let want = (i, if b.is_empty() { 0 } else { scale });
    let g = read(c, "the wrapper of a big decimal", &e, |d| {
        dlhn::BigDecimal::deserialize(d).map(|x| -> bigdecimal::BigDecimal { x.into() }).map(parts)
    })?;
    ensure!(same_dec(&g, &want), "{} converts to the decimal {:?} instead of {:?}", hex(&e), g, want);
    let g = read(c, "format::big_decimal", &e, |d| FD::deserialize(d).map(|x| parts(x.0)))?;
    ensure!(same_dec(&g, &want), "{} is read as the decimal {:?} instead of {:?}", hex(&e), g, want);
    // and a received number goes out again in canonical form through the number types
    let again = guard("From<BigDecimal>", || ser(&dlhn::BigDecimal::from(bigdecimal::BigDecimal::new(want.0.clone(), want.1))))??;
    ensure!(again.is_ok(), "a received decimal does not serialize: {:?}", again);
    c.count("raw_payloads", 1);
    c.seen(mix(4, hash_bytes(&e)));
    Ok(())
}

fn magnitude(c: &mut Case) -> BigUint {
    let r = &mut c.rng;
    match r.below(8) {
        0 => BigUint::from(r.int(64)),
        1 => BigUint::from(r.int(16)),
        2 => (BigUint::from(1u8) << r.below(300)) - BigUint::from(1u8),
        3 => BigUint::from(1u8) << r.below(300),
        4 => (BigUint::from(1u8) << r.below(300)) + BigUint::from(1u8),
        5 => {
            let n = r.range(1, 40);
            BigUint::from_bytes_le(&r.bytes(n))
        }
        6 => {
            // zero bytes inside and at the low end
            let n = r.range(1, 40);
            let mut b = vec![0u8; n];
            for _ in 0..3 {
                let i = r.below(n);
                b[i] = *r.pick(&[1u8, 0x7f, 0x80, 0xff]);
            }
            BigUint::from_bytes_le(&b)
        }
        _ => {
            let n = *r.pick(&[126usize, 127, 128, 129, 130, 255, 256, 500, 1000]);
            BigUint::from_bytes_le(&r.bytes(n))
        }
    }
}

fn signed(c: &mut Case) -> BigInt {
    let m = BigInt::from(magnitude(c));
    if c.rng.bool() {
        -m
    } else {
        m
    }
}

fn scale(r: &mut Rng) -> i64 {
    const K: i64 = 100_000;
    match r.below(8) {
        0 => 0,
        1 => r.range(0, 40) as i64 - 20,
        2 => r.range(0, 2000) as i64 - 1000,
        3 => i64::MAX - K - r.below(1000) as i64,
        4 => i64::MIN + K + r.below(1000) as i64,
        5 => *r.pick(&[i32::MAX as i64, i32::MIN as i64, u32::MAX as i64, 1 << 40, -(1 << 40), 10_000_000_000, -10_000_000_000]),
        _ => gen_i(r, 64).clamp(i64::MIN + K, i64::MAX - K),
    }
}

pub fn c12(run: &Run) {
    // every number around every byte-length and sign-bit boundary
    run.section("boundaries", 140, |c| {
        let k = c.idx as usize * 4;
        for bit in k..k + 4 {
            for d in -260i32..=260 {
                let n = (BigInt::from(1) << bit) + BigInt::from(d);
                int(c, &n)?;
                int(c, &-n.clone())?;
                if let (Sign::Plus | Sign::NoSign, m) = n.into_parts() {
                    uint(c, &m)?;
                }
            }
        }
        Ok(())
    });
    run.section("small", 64, |c| {
        for k in 0..1100 {
            let n = c.idx as i64 * 1100 + k;
            int(c, &BigInt::from(n))?;
            int(c, &BigInt::from(-n))?;
            uint(c, &BigUint::from(n as u64))?;
        }
        Ok(())
    });
    run.section("random", run.n(20_000, 800_000), |c| {
        let m = magnitude(c);
        uint(c, &m)?;
        let n = signed(c);
        int(c, &n)
    });
    run.section("decimals", run.n(20_000, 800_000), |c| {
        let n = if c.rng.bool() { BigInt::from(gen_i(&mut c.rng, 40)) } else { signed(c) };
        let s = scale(&mut c.rng);
        let z = *c.rng.pick(&[0u32, 0, 1, 2, 3, 5, 18, 19, 20, 40]);
        dec(c, &n, s, 0)?;
        if z > 0 {
            dec(c, &n, s, z)?;
        }
        Ok(())
    });
    run.section("small-decimals", 41, |c| {
        let s = c.idx as i64 - 20;
        for n in -1300i64..=1300 {
            dec(c, &BigInt::from(n), s, 0)?;
        }
        Ok(())
    });
    // zero is zero, whatever scale it carries
    run.section("zeros", run.n(300, 3_000), |c| {
        let s = if c.rng.bool() { gen_i(&mut c.rng, 64) } else { *c.rng.pick(&[i64::MIN, i64::MAX, 0, 1, -1, 1 << 40]) };
        dec(c, &BigInt::from(0), s, 0)?;
        c.count("zeros", 1);
        Ok(())
    });
    // scales so extreme that trailing zeros cannot be moved into them: the value has to survive
    run.section("extreme-scales", run.n(2_000, 40_000), |c| {
        let d = signed(c) * BigInt::from(*c.rng.pick(&[1i64, 10, 100, 1_000_000]));
        let s = if c.rng.bool() { i64::MIN + c.rng.below(6) as i64 } else { i64::MAX - c.rng.below(6) as i64 };
        let size = twos(&d).len();
        for wrapper in [true, false] {
            let (b, peak) = guard_mem("big decimal", CAP, || {
                let d = bigdecimal::BigDecimal::new(d.clone(), s);
                let mut out = Vec::new();
                let r = if wrapper { dlhn::BigDecimal::from(d).serialize(&mut Serializer::new(&mut out)) } else { FD(d).serialize(&mut Serializer::new(&mut out)) };
                r.map(|_| out)
            })?;
            ensure!(peak <= lim(size), "a decimal of {} bytes with scale {} takes {} bytes of memory", size, s, peak);
            if let Ok(b) = b {
                let g = read(c, "format::big_decimal", &b, |d| FD::deserialize(d).map(|x| parts(x.0)))?;
                match g {
                    Ok(g) => ensure!(value_eq(&g, &(d.clone(), s)), "{}e-({}) comes back as {}e-({})", d, s, g.0, g.1),
                    Err(e) => vio!("{}e-({}) written as {} is refused: {:?}", d, s, hex(&b), e),
                }
            }
        }
        let h = mix(s as u64, hash_bytes(&twos(&d)));
        c.seen(h);
        Ok(())
    });
    run.section("raw", run.n(30_000, 1_000_000), |c| {
        let n = match c.rng.below(12) {
            0 => *c.rng.pick(&[126usize, 127, 128, 129, 256, 300]),
            1 => 0,
            _ => c.rng.range(1, 24),
        };
        let mut b = c.rng.bytes(n);
        match c.rng.below(6) {
            0 => b.extend(vec![0u8; c.rng.range(1, 5)]),
            1 => b.extend(vec![0xffu8; c.rng.range(1, 5)]),
            2 => b.iter_mut().for_each(|x| *x = 0),
            3 => b.iter_mut().for_each(|x| *x = 0xff),
            _ => {}
        }
        let s = if c.rng.pct(20) { *c.rng.pick(&[i64::MIN, i64::MAX, i64::MIN + 1]) } else { gen_i(&mut c.rng, 64) };
        raw(c, &b, s)
    });
    run.section("raw-short", 257, |c| {
        if c.idx == 256 {
            return raw(c, &[], 0);
        }
        raw(c, &[c.idx as u8], 0)?;
        for x in 0..=255u8 {
            raw(c, &[c.idx as u8, x], 3)?;
        }
        Ok(())
    });
    // long numbers: thousands of digits
    run.section("long", run.n(24, 400), |c| {
        let n = c.rng.range(3000, 9000);
        let m = BigUint::from_bytes_le(&c.rng.bytes(n));
        uint(c, &m)?;
        let i = -BigInt::from(m);
        int(c, &i)?;
        let s = scale(&mut c.rng);
        dec(c, &i, s, 30)
    });
}

/// Equal as numbers, without expanding scales: digits differ only by powers of ten.
fn value_eq(a: &Dec, b: &Dec) -> bool {
    use num_traits::Zero;
    if a.0.is_zero() || b.0.is_zero() {
        return a.0.is_zero() && b.0.is_zero();
    }
    let norm = |d: &Dec| {
        let (mut n, mut s) = (d.0.clone(), d.1 as i128);
        let ten = BigInt::from(10);
        loop {
            let q = &n / &ten;
            if &q * &ten != n {
                return (n, s);
            }
            n = q;
            s -= 1;
        }
    };
    norm(a) == norm(b)
}
