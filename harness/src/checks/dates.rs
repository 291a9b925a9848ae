//! C13 dates and instants.
use super::util::*;
use crate::corpus::*;
use super::util::ser;
use crate::mon::*;
use crate::{ensure, vio};
use dlhn::{Deserializer, Serializer};
use refmodel::*;
use serde::{Deserialize, Serialize};
use std::convert::TryInto;
use time::{OffsetDateTime, UtcOffset};

#[derive(Serialize, Deserialize)]
struct FDate(#[serde(with = "dlhn::format::date")] time::Date);
#[derive(Serialize, Deserialize)]
struct FTime(#[serde(with = "dlhn::format::date_time")] OffsetDateTime);

fn leap(y: i64) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}

fn year_range() -> (i64, i64) {
    (time::Date::MIN.year() as i64, time::Date::MAX.year() as i64)
}

fn de<T: for<'a> Deserialize<'a>>(what: &str, b: &[u8]) -> R<Result<T, DeErr>> {
    let mut data = b.to_vec();
    data.extend_from_slice(&[0, 0xff]);
    let mut rd = data.as_slice();
    let r = guard(what, || T::deserialize(&mut Deserializer::new(&mut rd)))?;
    if r.is_ok() {
        ensure!(rd.len() == 2, "{}: {} of {} bytes consumed", what, data.len() - rd.len(), b.len());
    }
    Ok(r)
}

fn one_day(d: time::Date) -> R {
    let want = encode(&date_val(&d));
    let w = guard("Date::from", || dlhn::Date::from(d))?;
    match ser(&w)? {
        Ok(b) => ensure!(b == want, "{} is written by the wrapper as {} instead of {}", d, hex(&b), hex(&want)),
        Err(e) => vio!("{} does not serialize: {:?}", d, e),
    }
    match ser(&FDate(d))? {
        Ok(b) => ensure!(b == want, "{} is written by format::date as {} instead of {}", d, hex(&b), hex(&want)),
        Err(e) => vio!("{} does not serialize through format::date: {:?}", d, e),
    }
    match de::<dlhn::Date>("Date::deserialize", &want)? {
        Ok(x) => {
            ensure!(x == w, "{} comes back as another wrapper: {:?}", d, x);
            let back: Result<time::Date, ()> = guard("TryInto<time::Date>", || x.try_into())?;
            ensure!(back == Ok(d), "{} converts back to {:?}", d, back);
        }
        Err(e) => vio!("{} = {} is refused: {:?}", d, hex(&want), e),
    }
    match de::<FDate>("format::date", &want)? {
        Ok(x) => ensure!(x.0 == d, "{} is read by format::date as {}", d, x.0),
        Err(e) => vio!("{} = {} is refused by format::date: {:?}", d, hex(&want), e),
    }
    Ok(())
}

fn day(c: &mut Case, d: time::Date) -> R {
    one_day(d)?;
    c.evals(4);
    c.count("days", 1);
    Ok(())
}

/// Any year and ordinal as they travel.
fn raw_date(c: &mut Case, year: i64, ordinal: u32) -> R {
    // year - 2000 in 32 bits, ordinal - 1 in 16
    let mut b = Vec::new();
    put_varint(&mut b, zig(year - 2000), 32);
    put_varint(&mut b, ordinal as u64 - 1, 16);
    let (lo, hi) = year_range();
    let good = year >= lo && year <= hi && ordinal >= 1 && ordinal <= if leap(year) { 366 } else { 365 };
    if let Ok(w) = de::<dlhn::Date>("Date::deserialize", &b)? {
        let back: Result<time::Date, ()> = guard("TryInto<time::Date>", || w.try_into())?;
        match (back, good) {
            (Ok(d), true) => ensure!(d.year() as i64 == year && d.ordinal() as u32 == ordinal, "year {} day {} converts to {}", year, ordinal, d),
            (Err(_), false) => {}
            (Ok(d), false) => vio!("year {} day {} is no day, but converts to {}", year, ordinal, d),
            (Err(_), true) => vio!("year {} day {} does not convert", year, ordinal),
        }
        // what was received can be sent on
        match ser(&w)? {
            Ok(x) => ensure!(x == b, "year {} day {} received as {} is written as {}", year, ordinal, hex(&b), hex(&x)),
            Err(e) => vio!("year {} day {} received but not written: {:?}", year, ordinal, e),
        }
    } else {
        ensure!(!good, "year {} day {} = {} is refused", year, ordinal, hex(&b));
    }
    match (de::<FDate>("format::date", &b)?, good) {
        (Ok(d), true) => ensure!(d.0.year() as i64 == year && d.0.ordinal() as u32 == ordinal, "year {} day {} is read by format::date as {}", year, ordinal, d.0),
        (Err(_), false) => {}
        (Ok(d), false) => vio!("year {} day {} is no day, but format::date reads {}", year, ordinal, d.0),
        (Err(e), true) => vio!("year {} day {} is refused by format::date: {:?}", year, ordinal, e),
    }
    c.count(if good { "raw_days" } else { "raw_impossible_days" }, 1);
    c.seen(mix(year as u64, ordinal as u64));
    Ok(())
}

fn instant(c: &mut Case, t: OffsetDateTime) -> R {
    let v = odt_val(&t);
    let want = encode(&v);
    let w = guard("DateTime::from", || dlhn::DateTime::from(t))?;
    match ser(&w)? {
        Ok(b) => ensure!(b == want, "{} is written by the wrapper as {} instead of {}", t, hex(&b), hex(&want)),
        Err(e) => vio!("{} does not serialize: {:?}", t, e),
    }
    match ser(&FTime(t))? {
        Ok(b) => ensure!(b == want, "{} is written by format::date_time as {} instead of {}", t, hex(&b), hex(&want)),
        Err(e) => vio!("{} does not serialize through format::date_time: {:?}", t, e),
    }
    let ns = t.unix_timestamp_nanos();
    match de::<dlhn::DateTime>("DateTime::deserialize", &want)? {
        Ok(x) => {
            ensure!(x == w, "{} comes back as another wrapper {:?}", t, x);
            let back: Result<OffsetDateTime, ()> = guard("TryInto<OffsetDateTime>", || x.try_into())?;
            match back {
                Ok(b) => ensure!(b.unix_timestamp_nanos() == ns, "{} converts back to {}", t, b),
                Err(_) => vio!("{} does not convert back", t),
            }
        }
        Err(e) => vio!("{} = {} is refused: {:?}", t, hex(&want), e),
    }
    match de::<FTime>("format::date_time", &want)? {
        Ok(x) => ensure!(x.0.unix_timestamp_nanos() == ns, "{} is read by format::date_time as {}", t, x.0),
        Err(e) => vio!("{} = {} is refused by format::date_time: {:?}", t, hex(&want), e),
    }
    c.count("instants", 1);
    c.seen(mix(7, hash_bytes(&want)));
    c.sample(|| format!("{} -> {}", t, hex(&want)));
    Ok(())
}

fn raw_instant(c: &mut Case, ts: i64, ns: u32) -> R {
    let mut b = Vec::new();
    put_varint(&mut b, zig(ts), 64);
    put_varint(&mut b, ns as u64, 32);
    let (lo, hi) = utc_range();
    let total = ts as i128 * 1_000_000_000 + ns as i128;
    let must = ts >= lo && ts <= hi && ns < 1_000_000_000;
    let may = total >= lo as i128 * 1_000_000_000 && total < (hi as i128 + 1) * 1_000_000_000;
    let judge = |what: &str, got: Option<OffsetDateTime>| -> R {
        match got {
            Some(t) => {
                ensure!(may, "{}: {} s {} ns is out of range but gives {}", what, ts, ns, t);
                ensure!(t.unix_timestamp_nanos() == total, "{}: {} s {} ns gives {}", what, ts, ns, t)
            }
            None => ensure!(!must, "{}: {} s {} ns is refused", what, ts, ns),
        }
        Ok(())
    };
    match de::<dlhn::DateTime>("DateTime::deserialize", &b)? {
        Ok(w) => {
            let back: Result<OffsetDateTime, ()> = guard("TryInto<OffsetDateTime>", || w.try_into())?;
            judge("the wrapper", back.ok())?;
            match ser(&w)? {
                Ok(x) => ensure!(x == b, "{} s {} ns received as {} is written as {}", ts, ns, hex(&b), hex(&x)),
                Err(e) => vio!("{} s {} ns received but not written: {:?}", ts, ns, e),
            }
        }
        Err(e) => ensure!(!must, "{} s {} ns = {} is refused: {:?}", ts, ns, hex(&b), e),
    }
    judge("format::date_time", de::<FTime>("format::date_time", &b)?.ok().map(|x| x.0))?;
    c.count(if must { "raw_instants" } else if may { "raw_open_instants" } else { "raw_impossible_instants" }, 1);
    c.seen(mix(ts as u64, ns as u64));
    Ok(())
}

pub fn c13(run: &Run) {
    let min = time::Date::MIN.to_julian_day() as i64;
    let max = time::Date::MAX.to_julian_day() as i64;
    let (ylo, yhi) = year_range();
    if run.thorough() {
        let per = 4000;
        run.section("every-day", ((max - min) / per + 1) as u64, |c| {
            let a = min + c.idx as i64 * per;
            for j in a..(a + per).min(max + 1) {
                day(c, time::Date::from_julian_day(j as i32).unwrap())?;
            }
            c.seen(a as u64);
            Ok(())
        });
    } else {
        // the ends and leap days of every year, and a random phase of a stride over all days
        run.section("year-ends", (yhi - ylo + 1) as u64, |c| {
            let y = (ylo + c.idx as i64) as i32;
            let last = if leap(y as i64) { 366 } else { 365 };
            for o in [1, 2, 31, 58, 59, 60, 61, 127, 128, 129, 130, 255, 256, 257, 364, 365, 366] {
                if o <= last {
                    day(c, time::Date::from_ordinal_date(y, o).unwrap())?;
                }
            }
            c.seen(mix(3, c.idx));
            Ok(())
        });
        run.section("day-stride", 256, |c| {
            let step = 256 * 7 + 1;
            let mut j = min + c.rng.below(step as usize) as i64;
            while j <= max {
                day(c, time::Date::from_julian_day(j as i32).unwrap())?;
                j += step;
            }
            c.seen(mix(5, c.idx));
            Ok(())
        });
    }
    // every ordinal of the years where the encoding or the calendar changes class
    let years: Vec<i64> = [-9999i64, -4, -1, 0, 1, 4, 100, 400, 1582, 1900, 1936, 1937, 1968, 1969, 1970, 1995, 1999, 2000, 2001, 2003, 2004, 2063, 2064, 2065, 2100, 2400, 9999]
        .iter()
        .copied()
        .filter(|y| *y >= ylo && *y <= yhi)
        .collect();
    run.section("whole-years", years.len() as u64, |c| {
        let y = years[c.idx as usize];
        for o in 1..=400 {
            raw_date(c, y, o)?;
        }
        for o in [512, 1000, 16384, 65535, 65536] {
            raw_date(c, y, o)?;
        }
        Ok(())
    });
    run.section("raw-dates", run.n(60_000, 2_000_000), |c| {
        let r = &mut c.rng;
        let top = i32::MAX as i64 + 2000;
        let bot = i32::MIN as i64 + 2000;
        let y = match r.below(7) {
            0 => ylo - r.below(5) as i64,
            1 => yhi + r.below(5) as i64,
            2 => top - r.below(4100) as i64,
            3 => bot + r.below(4100) as i64,
            4 => 2000 + gen_i(r, 32),
            _ => ylo + r.below((yhi - ylo + 1) as usize) as i64,
        };
        let o = match r.below(4) {
            0 => 360 + r.below(10) as u32,
            1 => 65536 - r.below(4) as u32,
            2 => 1 + r.int(16) as u32,
            _ => 1 + r.below(366) as u32,
        };
        raw_date(c, y, o)
    });
    run.section("instants", run.n(40_000, 1_500_000), |c| {
        let t = gen_odt(&mut c.rng);
        instant(c, t)
    });
    // instants on both sides of every varint class of the timestamp, with offsets
    run.section("timestamp-classes", 64 * run.n(20, 200), |c| {
        let (lo, hi) = utc_range();
        let k = c.idx % 64;
        let base = if k < 63 { (1i64 << k).min(hi) } else { 0 };
        let ts = base + c.rng.below(5) as i64 - 2;
        for ts in [ts, -ts] {
            if ts < lo || ts > hi {
                continue;
            }
            let ns = *c.rng.pick(&[0i64, 1, 127, 128, 16383, 16384, 2097151, 2097152, 268435455, 268435456, 999_999_999]);
            let t = match OffsetDateTime::from_unix_timestamp(ts).unwrap().checked_add(time::Duration::nanoseconds(ns)) {
                Some(t) => t,
                None => continue,
            };
            instant(c, t)?;
            let off = UtcOffset::from_whole_seconds(c.rng.range(0, 187_198) as i32 - 93_599).unwrap();
            if ts - lo > 200_000 && hi - ts > 200_000 {
                instant(c, t.to_offset(off))?;
                c.count("with_offset", 1);
            }
        }
        Ok(())
    });
    run.section("raw-instants", run.n(60_000, 2_000_000), |c| {
        let (lo, hi) = utc_range();
        let r = &mut c.rng;
        let ts = match r.below(7) {
            0 => lo - r.below(6) as i64 + r.below(3) as i64,
            1 => hi + r.below(6) as i64 - r.below(6) as i64,
            2 => *r.pick(&[i64::MIN, i64::MIN + 1, i64::MAX, i64::MAX - 1, i64::MAX - 4, 0, -1, 1]),
            3 => gen_i(r, 64),
            _ => lo + (r.u64() % (hi - lo) as u64) as i64,
        };
        let ns = match r.below(5) {
            0 => 999_999_999,
            1 => 1_000_000_000 + r.below(3) as u32,
            2 => u32::MAX - r.below(3) as u32,
            3 => r.int(32) as u32,
            _ => r.below(1_000_000_000) as u32,
        };
        raw_instant(c, ts, ns)
    });
    let _ = Serializer::new(Vec::new());
}
