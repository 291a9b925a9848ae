//! C03 integer coding.
use super::util::*;
use crate::mon::*;
use crate::{ensure, vio};
use dlhn::{Deserializer, Serializer};
use refmodel::*;
use serde::{de::DeserializeOwned, Serialize};

/// One value through the real encoder and decoder, against the reference.
fn one<T: Serialize + DeserializeOwned + PartialEq + std::fmt::Debug + Copy>(v: T, raw: u64, width: u32, buf: &mut Vec<u8>) -> R {
    buf.clear();
    v.serialize(&mut Serializer::new(&mut *buf))
        .map_err(|e| Broken::Vio(format!("{:?} does not serialize: {:?}", v, e)))?;
    let mut want = Small::default();
    if width == 8 {
        want.push(raw as u8)
    } else {
        want.varint(raw, width)
    }
    ensure!(buf.as_slice() == want.get(), "{}-bit {:?} is written as {} instead of {}", width, v, hex(buf), hex(want.get()));
    let n = buf.len();
    buf.extend_from_slice(&[0xff, 0x00, 0xa5]);
    let mut r = buf.as_slice();
    match T::deserialize(&mut Deserializer::new(&mut r)) {
        Ok(g) => ensure!(g == v, "{}-bit {:?} is read back as {:?} from {}", width, v, g, hex(&buf[..n])),
        Err(e) => vio!("{}-bit {:?} = {} is refused: {:?}", width, v, hex(&buf[..n]), e),
    }
    ensure!(r.len() == 3, "{}-bit {:?}: {} bytes consumed instead of {}", width, v, n + 3 - r.len(), n);
    Ok(())
}

/// Reference encoding without allocation (the sweeps visit billions of values).
#[derive(Default)]
struct Small {
    b: [u8; 12],
    n: usize,
}
impl Small {
    fn push(&mut self, x: u8) {
        self.b[self.n] = x;
        self.n += 1
    }
    fn varint(&mut self, v: u64, width: u32) {
        let (max_l, full) = match width {
            16 => (2, 0xc0),
            32 => (4, 0xf0),
            _ => (8u32, 0xff),
        };
        let bits = 64 - v.leading_zeros();
        let l = bits.div_ceil(7).max(1);
        if l <= max_l {
            let prefix = (0xff00u32 >> (l - 1)) as u8;
            self.push(prefix | (v & ((1 << (8 - l)) - 1)) as u8);
            let mut rest = v >> (8 - l);
            for _ in 1..l {
                self.push(rest as u8);
                rest >>= 8;
            }
        } else {
            self.push(full);
            for i in 0..width / 8 {
                self.push((v >> (8 * i)) as u8)
            }
        }
    }
    fn get(&self) -> &[u8] {
        &self.b[..self.n]
    }
}

fn both(width: u32, raw: u64, buf: &mut Vec<u8>) -> R {
    match width {
        8 => {
            one(raw as u8, raw, 8, buf)?;
            one(raw as u8 as i8, raw, 8, buf)
        }
        16 => {
            one(raw as u16, raw, 16, buf)?;
            one(unzig(raw) as i16, raw, 16, buf)
        }
        32 => {
            one(raw as u32, raw, 32, buf)?;
            one(unzig(raw) as i32, raw, 32, buf)
        }
        _ => {
            one(raw, raw, 64, buf)?;
            one(unzig(raw), raw, 64, buf)
        }
    }
}

/// All encoded forms decode to the value, all their prefixes are refused.
fn forms<T: Serialize + DeserializeOwned + PartialEq + std::fmt::Debug + Copy>(c: &mut Case, v: T, raw: u64, width: u32) -> R {
    for f in varint_forms(raw, width) {
        let mut data = f.clone();
        data.extend_from_slice(&[0x33, 0xff]);
        let mut r = data.as_slice();
        let got = guard("deserialize", || T::deserialize(&mut Deserializer::new(&mut r)))?;
        ensure!(got == Ok(v), "{}-bit {:?} in the form {} is read as {:?}", width, v, hex(&f), got);
        ensure!(r.len() == 2, "{}-bit {:?} in the form {}: consumed {}", width, v, hex(&f), data.len() - r.len());
        for k in 0..f.len() {
            let mut r = &f[..k];
            let got = guard("deserialize", || T::deserialize(&mut Deserializer::new(&mut r)))?;
            ensure!(got.is_err(), "{}-bit: {} of the {} bytes of {} are read as {:?}", width, k, f.len(), hex(&f), got);
        }
        c.count("forms", 1);
        c.count("truncations", f.len() as u64);
        c.evals(1 + f.len() as u64);
    }
    Ok(())
}

fn sweep(c: &mut Case, width: u32, it: impl Iterator<Item = u64>) -> R {
    let mut buf = Vec::with_capacity(32);
    let mut n = 0u64;
    let mut last = 0;
    let r = guard("integer coding", || -> R {
        for raw in it {
            both(width, raw, &mut buf)?;
            last = raw;
            n += 1;
        }
        Ok(())
    });
    match r {
        Ok(r) => r?,
        Err(Broken::Vio(m)) => vio!("near {}-bit value {:#x}: {}", width, last, m),
        Err(e) => return Err(e),
    }
    c.evals(2 * n);
    c.count(
        match width {
            8 => "values_8bit",
            16 => "values_16bit",
            32 => "values_32bit",
            _ => "values_64bit",
        },
        2 * n,
    );
    c.seen(mix(width as u64, last));
    Ok(())
}

pub fn c03(run: &Run) {
    run.section("8-bit", 1, |c| sweep(c, 8, 0..256));
    run.section("16-bit", 64, |c| {
        let lo = c.idx * 1024;
        sweep(c, 16, lo..lo + 1024)
    });
    // i8 through the sign, as a check of the sweep's own i8 handling
    run.section("16-bit-forms", 64, |c| {
        let lo = c.idx * 1024;
        for raw in lo..lo + 1024 {
            forms(c, raw as u16, raw, 16)?;
            forms(c, unzig(raw) as i16, raw, 16)?;
        }
        c.seen(lo);
        Ok(())
    });
    if run.thorough() {
        run.section_limited("32-bit-all", 65536, 700.0, |c| {
            let lo = c.idx << 16;
            sweep(c, 32, lo..lo + 65536)
        });
    } else {
        // a stride coprime to every power of two, from a random start: spreads over the domain
        let n = run.n(4096, 4096);
        run.section("32-bit-stride", n, |c| {
            let start = c.rng.u32() as u64;
            sweep(c, 32, (0..4096u64).map(move |i| (start + i * 1_000_003) & 0xffff_ffff))
        });
    }
    run.section("32-bit-dense", 33, |c| {
        let p = 1u64 << c.idx;
        let lo = p.saturating_sub(6000);
        sweep(c, 32, (lo..p + 6000).filter(|v| *v <= u32::MAX as u64))
    });
    run.section("64-bit-dense", 65 * 4, |c| {
        let p = if c.idx / 4 == 64 { u128::from(u64::MAX) + 1 } else { 1u128 << (c.idx / 4) };
        let k = (c.idx % 4) as u128;
        let lo = (p + 3000 * k).saturating_sub(6000);
        sweep(c, 64, (lo..lo + 3000).filter(|v| *v <= u64::MAX as u128).map(|v| v as u64))
    });
    run.section("64-bit-random", run.n(2000, 100_000), |c| {
        let mut r = c.rng.clone();
        sweep(c, 64, (0..2000u32).map(move |_| {
            let k = r.range(1, 64);
            match r.below(4) {
                // sparse and dense bit patterns of each length find a lost or misplaced bit
                0 => (1u64 << (k - 1)) | (1 << r.below(k)),
                1 => (u64::MAX >> (64 - k)) ^ (1 << r.below(k)),
                _ => (r.u64() >> (64 - k)) | (1 << (k - 1)),
            }
        }))
    });
    run.section("32-bit-patterns", run.n(500, 10_000), |c| {
        let mut r = c.rng.clone();
        sweep(c, 32, (0..2000u32).map(move |_| {
            let k = r.range(1, 32);
            match r.below(4) {
                0 => (1u64 << (k - 1)) | (1 << r.below(k)),
                1 => (u32::MAX as u64 >> (32 - k)) ^ (1 << r.below(k)),
                _ => ((r.u32() as u64) >> (32 - k)) | (1 << (k - 1)),
            }
        }))
    });
    run.section("forms", run.n(20_000, 1_000_000), |c| {
        let a = c.rng.int(32);
        forms(c, a as u32, a, 32)?;
        forms(c, unzig(a) as i32, a, 32)?;
        let a = c.rng.int(64);
        forms(c, a, a, 64)?;
        forms(c, unzig(a), a, 64)?;
        c.seen(a);
        c.sample(|| format!("{:#x}: {}", a, varint_forms(a, 64).iter().map(|f| hex(f)).collect::<Vec<_>>().join(" ")));
        Ok(())
    });
    // the integers as other things use them: lengths, indexes, scales, timestamps
    run.section("in-context", run.n(8_000, 300_000), |c| {
        let s = Shape::Tuple(vec![Shape::I64, Shape::U64, Shape::I16, Shape::I32, Shape::U16, Shape::U32, Shape::I8, Shape::U8]);
        let mut b = 100;
        let v = gen_val(&mut c.rng, &s, &mut b);
        let got = ser_val(&s, &v)?;
        let want = encode(&v);
        ensure!(got == want, "{}: {}", v.brief(), diff(&got, &want));
        let mut rd = MonReader::new(&got);
        let (g, _) = de_shape(&s, &mut rd)?;
        ensure!(g == Ok(v.clone()), "{} comes back as {:?}", v.brief(), g);
        c.seen_bytes(&got);
        Ok(())
    });
}
