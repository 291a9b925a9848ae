//! Values of many megabytes (C01) and lengths past 2^32 (C02, C01 thorough).
use crate::mon::*;
use crate::{ensure, vio};
use dlhn::{Deserializer, Serializer};
use refmodel::*;
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::collections::BTreeMap;
use std::io::{self, Write};

fn back<T: Serialize + DeserializeOwned + PartialEq>(c: &mut Case, what: &str, n: usize, bytes: usize, v: T) -> R {
    let mut out = Vec::new();
    let ok = guard("serialize", || v.serialize(&mut Serializer::new(&mut out)).is_ok())?;
    ensure!(ok, "{} of length {} is not written", what, n);
    let mut head = Vec::new();
    put_varint(&mut head, n as u64, 64);
    ensure!(out.starts_with(&head), "{} of length {} starts with {}", what, n, hex(&out[..out.len().min(12)]));
    ensure!(out.len() == head.len() + bytes, "{} of length {} takes {} bytes instead of {}", what, n, out.len(), head.len() + bytes);
    let end = out.len();
    out.extend_from_slice(b"\x07tail");
    let mut rd = out.as_slice();
    let r = guard("deserialize", || T::deserialize(&mut Deserializer::new(&mut rd)))?;
    match r {
        Err(e) => vio!("{} of length {} is refused: {:?}", what, n, e),
        Ok(g) => ensure!(g == v, "{} of length {} comes back changed", what, n),
    }
    ensure!(rd.len() == 5, "{} of length {}: {} of {} bytes consumed", what, n, out.len() - rd.len(), end);
    c.max("largest_encoding_bytes", end as u64);
    c.count("bytes_round_tripped", end as u64);
    c.seen(mix(hash_bytes(what.as_bytes()), n as u64));
    c.sample(|| format!("{} of length {}", what, n));
    Ok(())
}

/// Text of exactly this many bytes, of characters of all widths.
fn text(n: usize, seed: u64) -> String {
    let mut s = String::with_capacity(n);
    let unit = ["a", "é", "€", "𝄞", "z"].iter().cycle().skip(seed as usize % 5).take(997).copied().collect::<String>();
    while s.len() + unit.len() <= n {
        s.push_str(&unit)
    }
    for c in unit.chars() {
        if s.len() + c.len_utf8() <= n {
            s.push(c)
        }
    }
    while s.len() < n {
        s.push('x')
    }
    s
}

fn pattern(n: usize, seed: u64) -> Vec<u8> {
    let unit: Vec<u8> = (0..4999u64).map(|k| mix(seed, k) as u8).collect();
    let mut v = Vec::with_capacity(n);
    while v.len() < n {
        let k = unit.len().min(n - v.len());
        v.extend_from_slice(&unit[..k])
    }
    v
}

pub fn round_trips(run: &Run) {
    let mut sizes = vec![(1usize << 22) + 1, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, (1 << 25) + 3];
    if run.thorough() {
        sizes.extend([(1 << 26) + 5, (1 << 27) - 1, 3 << 25]);
    }
    let mut jobs: Vec<(u8, usize)> = vec![];
    for k in 0..6 {
        for n in &sizes {
            // elements of sequences are dearer than bytes
            if k < 2 || *n <= (1 << 22) + 1 || (run.thorough() && *n < 1 << 26) || (k == 2 && *n == (1 << 24) + 1) {
                jobs.push((k, *n))
            }
        }
    }
    jobs.extend([(0, (1 << 28) + 1), (1, (1 << 28) - 1)]);
    run.section("vast", jobs.len() as u64, |c| {
        let (k, n) = jobs[c.idx as usize];
        let seed = c.rng.u64();
        match k {
            0 => back(c, "binary", n, n, serde_bytes::ByteBuf::from(pattern(n, seed))),
            1 => back(c, "a string", n, n, text(n, seed)),
            2 => back(c, "a sequence of u8", n, n, pattern(n, seed)),
            3 => back(c, "a sequence of booleans", n, n, pattern(n, seed).iter().map(|b| b & 1 == 1).collect::<Vec<bool>>()),
            4 => {
                let n = n / 8;
                back(c, "a map", n, n * 9, (0..n).map(|i| (format!("{:07x}", i), i % 3 == 0)).collect::<BTreeMap<String, bool>>())
            }
            _ => back(c, "a sequence of units", n, 0, vec![(); n]),
        }
    });
    if !run.thorough() {
        return;
    }
    // more elements than 32 bits count, which take no room
    run.section("past-32-bits", 2, |c| {
        let n = (1usize << 32) + 3 + c.idx as usize;
        if c.idx == 0 {
            return back(c, "a sequence of units", n, 0, vec![(); n]);
        }
        let big = pattern(n, 5);
        back(c, "binary", n, n, serde_bytes::ByteBuf::from(big))
    });
}

/// Keeps the first bytes and counts the others.
struct Counting {
    head: Vec<u8>,
    total: u64,
}

impl Write for Counting {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let k = b.len().min(64usize.saturating_sub(self.head.len()));
        self.head.extend_from_slice(&b[..k]);
        self.total += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Zeros that take no memory until written to.
struct Zeros(*mut libc::c_void, usize);
impl Zeros {
    fn new(n: usize) -> Option<Self> {
        let p = unsafe { libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) };
        (p != libc::MAP_FAILED).then_some(Zeros(p, n))
    }
    fn bytes(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.0 as *const u8, self.1) }
    }
}
impl Drop for Zeros {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.0, self.1) };
    }
}

struct Claim(bool, usize);
impl Serialize for Claim {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.0 {
            s.serialize_seq(Some(self.1))?;
        } else {
            s.serialize_map(Some(self.1))?;
        }
        Err(serde::ser::Error::custom("enough"))
    }
}

/// What a length of any size looks like on the wire.
pub fn prefixes(run: &Run) {
    let mut lens = vec![];
    for b in [21u32, 28, 31, 32, 33, 35, 42, 49, 56, 63] {
        for d in [-2i64, -1, 0, 1, 2, 5, 300] {
            lens.push((1u64 << b).wrapping_add(d as u64))
        }
    }
    lens.extend([u64::MAX, u64::MAX - 1, u32::MAX as u64 * 3]);
    run.section("length-prefixes", lens.len() as u64 * 2, |c| {
        let n = lens[c.idx as usize / 2];
        let seq = c.idx % 2 == 0;
        let mut w = Counting { head: vec![], total: 0 };
        let _ = guard("serialize", || Claim(seq, n as usize).serialize(&mut Serializer::new(&mut w)).is_ok())?;
        let mut want = vec![];
        put_varint(&mut want, n, 64);
        ensure!(w.head == want, "a {} of {} elements starts with {} instead of {}", if seq { "sequence" } else { "map" }, n, hex(&w.head), hex(&want));
        c.seen(n);
        Ok(())
    });
    let lens: Vec<usize> = [28u32, 31, 32].iter().flat_map(|b| [-1i64, 0, 1, 5].map(|d| ((1i64 << b) + d) as usize)).chain([(1 << 32) + 300]).collect();
    run.section("vast", lens.len() as u64 * 3, |c| {
        let n = lens[c.idx as usize / 3];
        // one at a time: code that copies such a value is not wrong, and there is room for one copy
        static ALONE: std::sync::Mutex<()> = std::sync::Mutex::new(());
        let _alone = (n > 1 << 30).then(|| ALONE.lock().unwrap_or_else(|e| e.into_inner()));
        let z = match Zeros::new(n) {
            Some(z) => z,
            None => return Err(Broken::Harness(format!("no address space for {} bytes", n))),
        };
        let mut w = Counting { head: vec![], total: 0 };
        // zeros are text as well
        let s = unsafe { std::str::from_utf8_unchecked(z.bytes()) };
        let mut want = vec![];
        let what = match c.idx % 3 {
            0 => "a string",
            1 => "binary",
            _ => "a map key",
        };
        if c.idx % 3 == 2 {
            want.push(1)
        }
        put_varint(&mut want, n as u64, 64);
        let ok = guard("serialize", || {
            let mut ser = Serializer::new(&mut w);
            match c.idx % 3 {
                0 => s.serialize(&mut ser).is_ok(),
                1 => serde_bytes::Bytes::new(z.bytes()).serialize(&mut ser).is_ok(),
                _ => std::iter::once((s, ())).collect::<BTreeMap<&str, ()>>().serialize(&mut ser).is_ok(),
            }
        })?;
        ensure!(ok, "{} of {} bytes is not written", what, n);
        ensure!(w.head.starts_with(&want), "{} of {} bytes starts with {} instead of {}", what, n, hex(&w.head[..10]), hex(&want));
        ensure!(w.total == (want.len() + n) as u64, "{} of {} bytes takes {} bytes instead of {}", what, n, w.total, want.len() + n);
        c.max("largest_encoding_bytes", w.total);
        c.seen(mix(n as u64, c.idx % 3));
        c.sample(|| format!("{} of {} bytes", what, n));
        Ok(())
    });
}
