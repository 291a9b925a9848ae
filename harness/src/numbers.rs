//! Numbers and dates of the real crates, and their content computed independently of dlhn.
use refmodel::*;

pub fn gen_time_date(r: &mut Rng) -> time::Date {
    let min = time::Date::MIN.to_julian_day() as i64;
    let max = time::Date::MAX.to_julian_day() as i64;
    let j = match r.below(6) {
        0 => min + r.below(800) as i64,
        1 => max - r.below(800) as i64,
        2 => 2451545 + r.range(0, 1600) as i64 - 800, // around 2000-01-01
        3 => 1721060 + r.range(0, 1600) as i64 - 800, // around year 0
        _ => min + r.below((max - min + 1) as usize) as i64,
    };
    time::Date::from_julian_day(j as i32).unwrap()
}

pub fn gen_odt(r: &mut Rng) -> time::OffsetDateTime {
    let d = gen_time_date(r);
    let ns = match r.below(4) {
        0 => 0,
        1 => 999_999_999,
        2 => 1,
        _ => r.below(1_000_000_000) as u32,
    };
    let t = match r.below(4) {
        0 => time::Time::from_hms_nano(0, 0, 0, ns).unwrap(),
        1 => time::Time::from_hms_nano(23, 59, 59, ns).unwrap(),
        _ => time::Time::from_hms_nano(r.below(24) as u8, r.below(60) as u8, r.below(60) as u8, ns).unwrap(),
    };
    let off = match r.below(4) {
        0 | 1 => time::UtcOffset::UTC,
        2 => time::UtcOffset::from_whole_seconds(*r.pick(&[-93599, -86399, -43200, -1, 1, 3600, 19800, 50400, 86399, 93599])).unwrap(),
        _ => time::UtcOffset::from_whole_seconds(r.range(0, 180000) as i32 - 90000).unwrap(),
    };
    let v = d.with_time(t).assume_offset(off);
    // an instant outside the supported UTC years has no UTC date: keep to those that have
    let s = v.unix_timestamp();
    let (lo, hi) = utc_range();
    if s < lo || s > hi {
        return d.with_time(t).assume_utc();
    }
    v
}

/// First and last second the `time` crate can hold as a UTC date.
pub fn utc_range() -> (i64, i64) {
    let lo = time::Date::MIN.midnight().assume_utc().unix_timestamp();
    let hi = time::Date::MAX.with_hms(23, 59, 59).unwrap().assume_utc().unix_timestamp();
    (lo, hi)
}

pub fn big_uint_val(v: &num_bigint::BigUint) -> Val {
    // zero is one zero byte of length
    let mut b = Vec::new();
    let mut d = v.iter_u32_digits().collect::<Vec<_>>();
    while d.last() == Some(&0) {
        d.pop();
    }
    for w in d {
        b.extend_from_slice(&w.to_le_bytes())
    }
    while b.last() == Some(&0) {
        b.pop();
    }
    Val::BigUint(b)
}

/// Minimal two's complement, computed from sign and magnitude.
pub fn twos(v: &num_bigint::BigInt) -> Vec<u8> {
    let (sign, mag) = v.clone().into_parts();
    let mut b = match big_uint_val(&mag) {
        Val::BigUint(b) => b,
        _ => unreachable!(),
    };
    match sign {
        num_bigint::Sign::NoSign => {}
        num_bigint::Sign::Plus => {
            if b.last().is_some_and(|l| *l >= 0x80) {
                b.push(0)
            }
        }
        num_bigint::Sign::Minus => {
            // invert and add one, then make sure the sign bit is set and nothing is redundant
            let mut carry = 1u16;
            for x in b.iter_mut() {
                let t = (!*x) as u16 + carry;
                *x = t as u8;
                carry = t >> 8;
            }
            if b.last().is_none_or(|l| *l < 0x80) {
                b.push(0xff)
            }
            while b.len() >= 2 && b[b.len() - 1] == 0xff && b[b.len() - 2] >= 0x80 {
                b.pop();
            }
        }
    }
    b
}

pub fn big_int_val(v: &num_bigint::BigInt) -> Val {
    Val::BigInt(twos(v))
}

/// Canonical content of a decimal: no trailing zero digit; scale stays what the digits leave.
pub fn big_dec_val(v: &bigdecimal::BigDecimal) -> Val {
    use num_traits::Zero;
    let (mut n, mut scale) = v.as_bigint_and_exponent();
    if n.is_zero() {
        return Val::BigDec(vec![], 0);
    }
    let ten = num_bigint::BigInt::from(10);
    loop {
        let q = &n / &ten;
        if &q * &ten != n {
            break;
        }
        if scale == i64::MIN {
            break;
        }
        n = q;
        scale -= 1;
    }
    Val::BigDec(twos(&n), scale)
}

pub fn date_val(d: &time::Date) -> Val {
    Val::Date(d.year(), d.ordinal())
}

pub fn odt_val(d: &time::OffsetDateTime) -> Val {
    let ns = d.unix_timestamp_nanos();
    Val::DateTime(ns.div_euclid(1_000_000_000) as i64, ns.rem_euclid(1_000_000_000) as u32)
}

