//! Driver of the generated derive programs: gen.rs (written by c17.py) defines the types, their
//! models and `entries()`; this file monitors headers, bodies and round trips of their values.
#![allow(dead_code, non_camel_case_types, unused_variables, clippy::all)]
#[path = "@NUMBERS@"]
mod numbers;
mod gen;

use dlhn::{Body, DeserializeHeader, Deserializer, SerializeHeader, Serializer};
use refmodel::dynamic::*;
use refmodel::*;
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// A field type without a header and without serde implementations.
#[derive(Default, Clone, Debug)]
pub struct NoHdr(pub std::marker::PhantomData<u8>, pub u8);

pub struct Entry {
    pub name: &'static str,
    pub features: &'static [&'static str],
    pub shape: fn() -> Shape,
    pub header: fn() -> Result<Vec<u8>, String>,
    /// None: the type has no value that serde writes
    pub value: Option<fn(&mut Rng) -> Result<Seen, String>>,
    /// skipped variants, which must be refused
    pub refused: Option<fn(&mut Rng) -> Vec<Result<Vec<u8>, String>>>,
}

/// One serialized value, and what typed decoding makes of it
pub struct Seen {
    pub val: Val,
    pub bytes: Vec<u8>,
    pub back: Option<(Result<Val, String>, usize)>,
}

pub fn header_of<T: SerializeHeader>() -> Result<Vec<u8>, String> {
    let mut w = Vec::new();
    T::serialize_header(&mut w).map_err(|e| e.to_string())?;
    Ok(w)
}

pub fn write<T: Serialize>(t: &T) -> Result<Vec<u8>, String> {
    let mut w = Vec::new();
    t.serialize(&mut Serializer::new(&mut w)).map_err(|e| format!("{:?}", e))?;
    Ok(w)
}

pub fn value_ser<T: Model + Serialize>(r: &mut Rng) -> Result<Seen, String> {
    let mut b = 400;
    let t = T::gen(r, &mut b);
    Ok(Seen { val: t.val(), bytes: write(&t)?, back: None })
}

pub const TAIL: [u8; 3] = [7, 0xff, 0];

pub fn value_full<T: Model + Serialize + DeserializeOwned>(r: &mut Rng) -> Result<Seen, String> {
    let mut s = value_ser::<T>(r)?;
    let mut data = s.bytes.clone();
    data.extend_from_slice(&TAIL);
    let mut rd = data.as_slice();
    let back = T::deserialize(&mut Deserializer::new(&mut rd)).map(|t| t.val()).map_err(|e| format!("{:?}", e));
    s.back = Some((back, rd.len()));
    Ok(s)
}

fn dec<T>(r: &Result<T, dlhn::de::Error>) -> String {
    match r {
        Ok(_) => "Ok".into(),
        Err(e) => format!("{:?}", e),
    }
}

struct Tally {
    evals: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    bodies: u64,
    typed: u64,
    refused: u64,
    headers: u64,
    header_bytes: u64,
    longest_header: usize,
}

fn one(e: &Entry, seed: u64, t: &mut Tally) -> Result<(), String> {
    let mut r = Rng::new(seed);
    let shape = (e.shape)();
    let header = to_header(&shape).ok_or("model: no header")?;
    let want = encode_header(&header).ok_or("model: header too large")?;
    let got = (e.header)().map_err(|x| format!("header fails: {}", x))?;
    if got != want {
        return Err(format!("header {} instead of {} ({})", hex(&got), hex(&want), clip(&format!("{:?}", header), 400)));
    }
    t.headers += 1;
    t.evals += 1;
    t.header_bytes += got.len() as u64;
    t.longest_header = t.longest_header.max(got.len());
    let mut rd = got.as_slice();
    let decoded = rd.deserialize_header().map_err(|x| format!("header does not decode: {:?}", x))?;
    if decoded != header || !rd.is_empty() {
        return Err(format!("header decodes to {}", clip(&format!("{:?}", decoded), 400)));
    }
    if let Some(f) = e.refused {
        for o in f(&mut r) {
            if let Ok(b) = o {
                return Err(format!("a value of a skipped variant is written as {}", hex(&b)));
            }
            t.refused += 1;
        }
    }
    let f = match e.value {
        None => return Ok(()),
        Some(f) => f,
    };
    let s = f(&mut r).map_err(|x| format!("a value is not written: {}", x))?;
    let bytes = encode(&s.val);
    if s.bytes != bytes {
        return Err(format!("value {} written as {} instead of {}", s.val.brief(), hex(&s.bytes), hex(&bytes)));
    }
    t.evals += 1;
    let mut h = hash_bytes(e.name.as_bytes());
    h = mix(h, hash_bytes(&s.bytes));
    let fresh = t.distinct.insert(h);
    if fresh && t.samples.last().is_none_or(|l| !l.starts_with(&format!("{} ", e.name))) && t.samples.len() < 12 && s.bytes.len() < 60 && got.len() < 40 {
        t.samples.push(format!("{} {:?}: header {} body {}", e.name, e.features, hex(&got), hex(&s.bytes)));
    }
    // the body under the type's own header
    let mut data = s.bytes.clone();
    data.extend_from_slice(&TAIL);
    let mut rd = data.as_slice();
    let body = Body::deserialize(&decoded, &mut Deserializer::new(&mut rd));
    let left = rd.len();
    let body = match body {
        Ok(b) => b,
        Err(x) => return Err(format!("body {} does not decode under the type's header: {:?}", hex(&s.bytes), x)),
    };
    if left != TAIL.len() {
        return Err(format!("decoding {} under the type's header leaves {} bytes", hex(&s.bytes), left as i64 - TAIL.len() as i64));
    }
    let norm = s.val.normalize_maps();
    let model = to_body(&shape, &norm)?;
    if !body_eq(&body, &model) {
        return Err(format!("body {} decodes under the type's header to other content: {:?}", hex(&s.bytes), clip(&format!("{:?}", body), 400)));
    }
    if !body.validate(&decoded) {
        return Err(format!("the decoded body of {} does not validate", hex(&s.bytes)));
    }
    let again = write(&body).map_err(|x| format!("the body is not written: {}", x))?;
    if again != encode(&norm) {
        return Err(format!("body of {} written again as {}", hex(&s.bytes), hex(&again)));
    }
    t.bodies += 1;
    t.evals += 1;
    if let Some((back, left)) = s.back {
        match back {
            Err(x) => return Err(format!("typed decoding of {} fails: {}", hex(&s.bytes), x)),
            Ok(v) if v.normalize_maps() != norm => {
                return Err(format!("typed decoding of {} gives {}", hex(&s.bytes), v.brief()))
            }
            _ => {}
        }
        if left != TAIL.len() {
            return Err(format!("typed decoding of {} leaves {} bytes", hex(&s.bytes), left as i64 - TAIL.len() as i64));
        }
        t.typed += 1;
        t.evals += 1;
    }
    Ok(())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[1].parse().unwrap();
    let cases: u64 = a[2].parse().unwrap();
    let only = a.get(3).cloned();
    std::panic::set_hook(Box::new(|_| {}));
    let mut t = Tally { evals: 0, distinct: HashSet::new(), samples: vec![], bodies: 0, typed: 0, refused: 0, headers: 0,
                        header_bytes: 0, longest_header: 0 };
    let entries = gen::entries();
    let mut features = std::collections::BTreeMap::new();
    let mut failed = false;
    for e in &entries {
        if only.as_ref().is_some_and(|o| o != e.name) {
            continue;
        }
        eprintln!("AT {}", e.name);
        for f in e.features {
            *features.entry(*f).or_insert(0u64) += 1;
        }
        // wide types cost more per value
        let n = (cases * 20 / ((e.shape)().nodes() as u64 + 20)).max(3);
        for k in 0..n {
            let cs = mix(mix(seed, hash_bytes(e.name.as_bytes())), k);
            let r = catch_unwind(AssertUnwindSafe(|| one(e, cs, &mut t)));
            let r = match r {
                Ok(r) => r,
                Err(p) => Err(format!("panic: {}", p.downcast_ref::<String>().cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())),
            };
            if let Err(x) = r {
                println!("FAIL {} {}", e.name, x.replace('\n', " "));
                failed = true;
                break;
            }
        }
    }
    let q = |s: &str| format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', " "));
    println!("SUMMARY {{\"evaluations\":{},\"distinct\":{},\"types\":{},\"bodies\":{},\"typed\":{},\"refused\":{},\"headers\":{},\"longest_header\":{},\"samples\":[{}],\"features\":{{{}}}}}",
        t.evals, t.distinct.len(), entries.len(), t.bodies, t.typed, t.refused, t.headers, t.longest_header,
        t.samples.iter().map(|s| q(s)).collect::<Vec<_>>().join(","),
        features.iter().map(|(k, v)| format!("{}:{}", q(k), v)).collect::<Vec<_>>().join(","));
    std::process::exit(if failed { 1 } else { 0 });
}
