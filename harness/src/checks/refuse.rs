//! C14 what the format cannot represent.
use super::util::*;
use crate::mon::*;
use crate::{ensure, vio};
use dlhn::{Deserializer, Serializer};
use refmodel::*;
use serde::de::{self, DeserializeSeed, IgnoredAny, Visitor};
use serde::ser::{SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use std::fmt;

/// A map key that is not a string.
#[derive(Clone, Debug)]
struct Key(u8, u64);

const KEYS: u8 = 35;

impl Serialize for Key {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let x = self.1;
        match self.0 {
            0 => s.serialize_bool(x & 1 == 1),
            1 => s.serialize_u8(x as u8),
            2 => s.serialize_u16(x as u16),
            3 => s.serialize_u32(x as u32),
            4 => s.serialize_u64(x),
            5 => s.serialize_i8(x as i8),
            6 => s.serialize_i16(x as i16),
            7 => s.serialize_i32(x as i32),
            8 => s.serialize_i64(x as i64),
            9 => s.serialize_f32(x as f32),
            10 => s.serialize_f64(x as f64),
            11 => s.serialize_char((b'a' + (x % 26) as u8) as char),
            12 => s.serialize_bytes(&x.to_le_bytes()[..(x % 9) as usize]),
            13 => s.serialize_none(),
            14 => s.serialize_some("k"),
            15 => s.serialize_unit(),
            16 => s.serialize_unit_struct("U"),
            17 => s.serialize_unit_variant("E", (x % 300) as u32, "v"),
            18 => s.serialize_newtype_struct("N", &x),
            19 => s.serialize_newtype_variant("E", (x % 300) as u32, "v", "k"),
            20 => {
                let n = (x % 3) as usize;
                let mut q = s.serialize_seq(Some(n))?;
                for _ in 0..n {
                    q.serialize_element("k")?
                }
                q.end()
            }
            21 => {
                let n = (x % 3) as usize;
                let mut q = s.serialize_tuple(n)?;
                for _ in 0..n {
                    q.serialize_element("k")?
                }
                q.end()
            }
            22 => {
                let n = (x % 3) as usize;
                let mut q = s.serialize_tuple_struct("T", n)?;
                for _ in 0..n {
                    q.serialize_field("k")?
                }
                q.end()
            }
            23 => {
                let n = (x % 3) as usize;
                let mut q = s.serialize_tuple_variant("E", 0, "v", n)?;
                for _ in 0..n {
                    q.serialize_field("k")?
                }
                q.end()
            }
            24 => {
                let n = (x % 3) as usize;
                let mut q = s.serialize_map(Some(n))?;
                for _ in 0..n {
                    q.serialize_entry("k", "v")?
                }
                q.end()
            }
            25 => {
                let n = (x % 2) as usize;
                let mut q = s.serialize_struct("S", n)?;
                if n > 0 {
                    q.serialize_field("f0", "k")?
                }
                q.end()
            }
            26 => {
                let n = (x % 2) as usize;
                let mut q = s.serialize_struct_variant("E", 1, "v", n)?;
                if n > 0 {
                    q.serialize_field("f0", "k")?
                }
                q.end()
            }
            27 => s.serialize_i128(x as i128),
            28 => s.serialize_u128(x as u128),
            29 => s.serialize_seq(None)?.end(),
            30 => s.serialize_map(None)?.end(),
            31 => std::net::Ipv4Addr::from(x as u32).serialize(s),
            32 => std::time::Duration::from_secs(x % 1000).serialize(s),
            33 => Some(x).serialize(s),
            _ => std::net::Ipv6Addr::from(x as u128).serialize(s),
        }
    }
}

/// One request outside the format.
#[derive(Clone, Debug)]
enum Request {
    /// a map with `before` good entries and then a bad key
    Key { key: Key, before: usize, claimed: usize, split: bool },
    I128(i128),
    U128(u128),
    /// a struct (or struct variant) of which field `at` is left out, as `skip_serializing_if` does
    Skip { fields: usize, at: usize, variant: Option<u32> },
}

impl Serialize for Request {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            Request::I128(x) => s.serialize_i128(*x),
            Request::U128(x) => s.serialize_u128(*x),
            Request::Skip { fields, at, variant } => {
                macro_rules! fields {
                    ($q:expr) => {{
                        let mut q = $q;
                        for i in 0..*fields {
                            if i == *at {
                                q.skip_field(NAMES[i])?
                            } else {
                                q.serialize_field(NAMES[i], &(i as u8))?
                            }
                        }
                        q.end()
                    }};
                }
                match variant {
                    None => fields!(s.serialize_struct("S", fields - 1)?),
                    Some(i) => fields!(s.serialize_struct_variant("E", *i, "v", fields - 1)?),
                }
            }
            Request::Key { key, before, claimed, split } => {
                let mut q = s.serialize_map(Some(*claimed))?;
                for i in 0..*before {
                    q.serialize_entry(&format!("good{}", i), &i)?;
                }
                if *split {
                    q.serialize_key(key)?;
                    q.serialize_value(&1u8)?;
                } else {
                    q.serialize_entry(key, &1u8)?;
                }
                q.end()
            }
        }
    }
}

const NAMES: [&str; 6] = ["a", "b", "c", "d", "e", "f"];

fn request(r: &mut Rng) -> Request {
    match r.below(10) {
        2 => {
            let fields = r.range(1, 6);
            Request::Skip { fields, at: r.below(fields), variant: if r.bool() { None } else { Some(r.int(32) as u32) } }
        }
        0 => Request::I128(match r.below(6) {
            0 => 0,
            1 => -1,
            2 => i128::MIN,
            3 => i128::MAX,
            4 => r.u64() as i64 as i128,
            _ => (r.u64() as i128) << 64 | r.u64() as i128,
        }),
        1 => Request::U128(match r.below(5) {
            0 => 0,
            1 => u64::MAX as u128,
            2 => u128::MAX,
            3 => r.u64() as u128,
            _ => (r.u64() as u128) << 64 | r.u64() as u128,
        }),
        _ => {
            let before = r.below(3);
            let x = r.int(64);
            Request::Key { key: Key(r.below(KEYS as usize) as u8, x), before, claimed: before + 1, split: r.bool() }
        }
    }
}

/// A request below a path of containers.
struct At<'a>(&'a [u8], &'a dyn ErasedReq);

trait ErasedReq {
    fn go(&self, s: &mut Serializer<&mut Vec<u8>>) -> Result<(), dlhn::ser::Error>;
}
impl ErasedReq for Request {
    fn go(&self, s: &mut Serializer<&mut Vec<u8>>) -> Result<(), dlhn::ser::Error> {
        Serialize::serialize(self, s)
    }
}

/// `At` as a Serialize for any serializer: only the request's own data is needed.
struct Below<'a>(&'a [u8], &'a Request);
impl<'a> Serialize for Below<'a> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let Some((step, rest)) = self.0.split_first() else { return self.1.serialize(s) };
        let inner = Below(rest, self.1);
        match step % 13 {
            0 => s.serialize_some(&inner),
            1 => {
                let mut q = s.serialize_seq(Some(2))?;
                q.serialize_element(&inner)?;
                q.serialize_element(&1u8)?;
                q.end()
            }
            2 => {
                let mut q = s.serialize_seq(Some(2))?;
                q.serialize_element(&300u16)?;
                q.serialize_element(&inner)?;
                q.end()
            }
            3 => {
                let mut q = s.serialize_tuple(2)?;
                q.serialize_element("x")?;
                q.serialize_element(&inner)?;
                q.end()
            }
            4 => {
                let mut q = s.serialize_tuple_struct("T", 1)?;
                q.serialize_field(&inner)?;
                q.end()
            }
            5 => s.serialize_newtype_struct("N", &inner),
            6 => {
                let mut q = s.serialize_struct("S", 2)?;
                q.serialize_field("f0", &inner)?;
                q.serialize_field("f1", &true)?;
                q.end()
            }
            7 => {
                let mut q = s.serialize_map(Some(2))?;
                q.serialize_entry("a", &1)?;
                q.serialize_entry("b", &inner)?;
                q.end()
            }
            8 => {
                let mut q = s.serialize_map(Some(1))?;
                q.serialize_key("a")?;
                q.serialize_value(&inner)?;
                q.end()
            }
            9 => s.serialize_newtype_variant("E", 200, "v", &inner),
            10 => {
                let mut q = s.serialize_tuple_variant("E", 1, "v", 2)?;
                q.serialize_field(&inner)?;
                q.serialize_field(&inner)?;
                q.end()
            }
            11 => {
                let mut q = s.serialize_struct_variant("E", 1, "v", 1)?;
                q.serialize_field("f0", &inner)?;
                q.end()
            }
            _ => Box::new(inner).serialize(s),
        }
    }
}

impl<'a> At<'a> {
    fn run(&self, r: &Request) -> R<(Result<(), dlhn::ser::Error>, Vec<u8>)> {
        let mut out = Vec::new();
        let res = guard("serialize", || {
            let mut s = Serializer::new(&mut out);
            if self.0.is_empty() {
                self.1.go(&mut s)
            } else {
                Below(self.0, r).serialize(&mut s)
            }
        })?;
        Ok((res, out))
    }
}

// ---- deserialization -----------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ask {
    Any,
    Ignored,
    I128,
    U128,
}
const ASKS: &[Ask] = &[Ask::Any, Ask::Ignored, Ask::I128, Ask::U128];

struct Taker;
impl<'de> Visitor<'de> for Taker {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("anything")
    }
    fn visit_bool<E>(self, _: bool) -> Result<(), E> {
        Ok(())
    }
    fn visit_i64<E>(self, _: i64) -> Result<(), E> {
        Ok(())
    }
    fn visit_i128<E>(self, _: i128) -> Result<(), E> {
        Ok(())
    }
    fn visit_u64<E>(self, _: u64) -> Result<(), E> {
        Ok(())
    }
    fn visit_u128<E>(self, _: u128) -> Result<(), E> {
        Ok(())
    }
    fn visit_f64<E>(self, _: f64) -> Result<(), E> {
        Ok(())
    }
    fn visit_str<E>(self, _: &str) -> Result<(), E> {
        Ok(())
    }
    fn visit_bytes<E>(self, _: &[u8]) -> Result<(), E> {
        Ok(())
    }
    fn visit_none<E>(self) -> Result<(), E> {
        Ok(())
    }
    fn visit_unit<E>(self) -> Result<(), E> {
        Ok(())
    }
    fn visit_some<D: serde::Deserializer<'de>>(self, _: D) -> Result<(), D::Error> {
        Ok(())
    }
    fn visit_newtype_struct<D: serde::Deserializer<'de>>(self, _: D) -> Result<(), D::Error> {
        Ok(())
    }
    fn visit_seq<A: de::SeqAccess<'de>>(self, _: A) -> Result<(), A::Error> {
        Ok(())
    }
    fn visit_map<A: de::MapAccess<'de>>(self, _: A) -> Result<(), A::Error> {
        Ok(())
    }
    fn visit_enum<A: de::EnumAccess<'de>>(self, _: A) -> Result<(), A::Error> {
        Ok(())
    }
}

/// Asks for something the format cannot give, below a path of containers.
#[derive(Clone, Copy)]
struct AskAt<'a>(&'a [u8], Ask);
impl<'de, 'a> DeserializeSeed<'de> for AskAt<'a> {
    type Value = ();
    fn deserialize<D: serde::Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        let Some((step, _)) = self.0.split_first() else {
            return match self.1 {
                Ask::Any => d.deserialize_any(Taker),
                Ask::Ignored => d.deserialize_ignored_any(Taker),
                Ask::I128 => d.deserialize_i128(Taker),
                Ask::U128 => d.deserialize_u128(Taker),
            };
        };
        match step % 8 {
            0 => d.deserialize_option(self),
            1 => d.deserialize_seq(self),
            2 => d.deserialize_tuple(2, self),
            3 => d.deserialize_tuple_struct("T", 2, self),
            4 => d.deserialize_newtype_struct("N", self),
            5 => d.deserialize_struct("S", &["f0", "f1"], self),
            6 => d.deserialize_map(self),
            _ => d.deserialize_enum("E", &["a", "b"], self),
        }
    }
}
impl<'a> AskAt<'a> {
    fn inner(&self) -> AskAt<'a> {
        AskAt(&self.0[1..], self.1)
    }
}
impl<'de, 'a> Visitor<'de> for AskAt<'a> {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a container")
    }
    fn visit_some<D: serde::Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        self.inner().deserialize(d)
    }
    fn visit_newtype_struct<D: serde::Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        self.inner().deserialize(d)
    }
    fn visit_seq<A: de::SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        a.next_element_seed(self.inner())?.ok_or_else(|| de::Error::custom("too short"))
    }
    fn visit_map<A: de::MapAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        a.next_key::<String>()?.ok_or_else(|| <A::Error as de::Error>::custom("too short"))?;
        a.next_value_seed(self.inner())
    }
    fn visit_enum<A: de::EnumAccess<'de>>(self, a: A) -> Result<(), A::Error> {
        let (_, v) = a.variant_seed(std::marker::PhantomData::<Index>)?;
        de::VariantAccess::newtype_variant_seed(v, self.inner())
    }
}
#[derive(Debug)]
struct Index;
impl<'de> Deserialize<'de> for Index {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        d.deserialize_identifier(Taker).map(|_| Index)
    }
}

// real types that need the type at run time, or are outside the format
#[derive(Serialize, Deserialize, Debug)]
#[serde(untagged)]
#[allow(dead_code)]
enum Untagged {
    A { x: u8 },
    B(String),
    C(u64),
}
#[derive(Serialize, Deserialize, Debug)]
#[serde(tag = "t")]
#[allow(dead_code)]
enum Internal {
    A { x: u8 },
    B { y: String },
}
#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct Flat {
    a: u8,
    #[serde(flatten)]
    rest: BTreeMap<String, u8>,
}
#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct Skips {
    a: u8,
    b: IgnoredAny,
}

type Refuse = fn(&[u8]) -> R<bool>;
fn de_real<T: for<'a> Deserialize<'a>>(b: &[u8]) -> R<bool> {
    let mut rd = MonReader::new(b);
    Ok(guard("deserialize", || T::deserialize(&mut Deserializer::new(&mut rd)).is_ok())?)
}
const REAL_DE: &[(&str, Refuse)] = &[
    ("untagged enum", de_real::<Untagged>),
    ("internally tagged enum", de_real::<Internal>),
    ("IgnoredAny", de_real::<IgnoredAny>),
    ("(u8, IgnoredAny)", de_real::<(u8, IgnoredAny)>),
    ("struct with IgnoredAny", de_real::<Skips>),
    ("i128", de_real::<i128>),
    ("u128", de_real::<u128>),
    ("(u8, u128)", de_real::<(u8, u128)>),
    ("flatten", de_real::<Flat>),
];
/// as above below a container that has to hold at least one
const REAL_DE_IN: &[(&str, Refuse)] = &[
    ("Vec<IgnoredAny>", de_real::<Vec<IgnoredAny>>),
    ("Vec<u128>", de_real::<Vec<u128>>),
    ("Option<i128>", de_real::<Option<i128>>),
    ("Option<Untagged>", de_real::<Option<Untagged>>),
    ("Vec<Internal>", de_real::<Vec<Internal>>),
];

fn ser_real<T: Serialize>(c: &mut Case, what: &str, t: &T) -> R {
    if let Ok(b) = ser(t)? {
        vio!("{} is written as {}", what, hex(&b))
    }
    c.count("real_types_refused", 1);
    c.seen(hash_bytes(what.as_bytes()));
    Ok(())
}

#[derive(Serialize, PartialEq, Eq, Hash, PartialOrd, Ord, Clone)]
enum UnitKey {
    A,
    B,
}
#[derive(Serialize, PartialEq, Eq, Hash, PartialOrd, Ord, Clone)]
struct StructKey {
    a: String,
}
#[derive(Serialize)]
struct Holder<K: Ord> {
    ok: u8,
    m: Option<Vec<BTreeMap<K, u8>>>,
}
fn key_real<K: Ord + std::hash::Hash + Serialize + Clone>(c: &mut Case, what: &str, k: K) -> R {
    let m: BTreeMap<K, u8> = [(k.clone(), 1)].into_iter().collect();
    let h: HashMap<K, u8> = [(k.clone(), 1)].into_iter().collect();
    ser_real(c, &format!("BTreeMap<{}, _>", what), &m)?;
    ser_real(c, &format!("HashMap<{}, _>", what), &h)?;
    ser_real(c, &format!("nested BTreeMap<{}, _>", what), &Holder { ok: 1, m: Some(vec![m.clone()]) })?;
    ser_real(c, &format!("BTreeMap<String, BTreeMap<{}, _>>", what), &[("a".to_string(), m)].into_iter().collect::<BTreeMap<_, _>>())
}

#[derive(Serialize)]
struct Sometimes {
    a: u8,
    #[serde(skip_serializing_if = "Option::is_none")]
    b: Option<u8>,
    c: u8,
}
#[derive(Serialize)]
enum SometimesIn {
    #[allow(dead_code)]
    A,
    B {
        a: u8,
        #[serde(skip_serializing_if = "Vec::is_empty")]
        b: Vec<u8>,
    },
}
#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct SometimesTuple(u8, #[serde(skip_serializing_if = "Option::is_none")] Option<u8>, u8);

pub fn c14(run: &Run) {
    run.section("keys", KEYS as u64 * 60, |c| {
        // every kind of key, plain
        let key = Key((c.idx % KEYS as u64) as u8, c.idx / KEYS as u64);
        let before = (c.idx / KEYS as u64 % 3) as usize;
        let r = Request::Key { key, before, claimed: before + 1, split: c.rng.bool() };
        refuse(c, &[], &r)
    });
    run.section("requests", run.n(60_000, 2_000_000), |c| {
        let r = request(&mut c.rng);
        let n = match c.rng.below(10) {
            0 => 0,
            1 => c.rng.range(5, 30),
            _ => c.rng.range(1, 5),
        };
        let path = c.rng.bytes(n);
        refuse(c, &path, &r)
    });
    run.section("real-types", 1, |c| {
        key_real(c, "bool", true)?;
        key_real(c, "u8", 1u8)?;
        key_real(c, "i64", -1i64)?;
        key_real(c, "u128", 1u128)?;
        key_real(c, "char", 'x')?;
        key_real(c, "()", ())?;
        key_real(c, "Option<String>", Some("x".to_string()))?;
        key_real(c, "None", None::<String>)?;
        key_real(c, "Vec<u8>", vec![1u8])?;
        key_real(c, "(String, String)", ("a".to_string(), "b".to_string()))?;
        key_real(c, "[u8; 0]", [0u8; 0])?;
        key_real(c, "Box<u16>", Box::new(7u16))?;
        key_real(c, "unit variant", UnitKey::B)?;
        key_real(c, "unit variant", UnitKey::A)?;
        key_real(c, "struct", StructKey { a: "x".into() })?;
        key_real(c, "Ipv4Addr", std::net::Ipv4Addr::LOCALHOST)?;
        key_real(c, "IpAddr", std::net::IpAddr::V4(std::net::Ipv4Addr::LOCALHOST))?;
        key_real(c, "SocketAddr", std::net::SocketAddr::from(([1, 2, 3, 4], 5)))?;
        key_real(c, "ByteBuf", serde_bytes::ByteBuf::from(vec![1, 2]))?;
        ser_real(c, "i128", &-1i128)?;
        ser_real(c, "u128", &1u128)?;
        ser_real(c, "Vec<u128>", &vec![1u128])?;
        ser_real(c, "Option<i128>", &Some(1i128))?;
        ser_real(c, "(u8, u128)", &(1u8, 1u128))?;
        let none = Sometimes { a: 1, b: None, c: 2 };
        ser_real(c, "a struct with a field left out", &none)?;
        ser_real(c, "a nested struct with a field left out", &Some(vec![("k", none)]))?;
        ser_real(c, "a struct variant with a field left out", &SometimesIn::B { a: 1, b: vec![] })?;
        for (what, got, want) in [
            ("a struct with no field left out", ser(&Sometimes { a: 1, b: Some(7), c: 2 })?, vec![1, 1, 7, 2]),
            ("a variant with no field left out", ser(&SometimesIn::B { a: 1, b: vec![9] })?, vec![1, 1, 1, 9]),
        ] {
            ensure!(got == Ok(want), "{} gives {:?}", what, got);
        }
        Ok(())
    });
    run.section("decode-requests", run.n(40_000, 1_000_000), |c| {
        let ask = *c.rng.pick(ASKS);
        let n = match c.rng.below(10) {
            0 => 0,
            1 => c.rng.range(5, 30),
            _ => c.rng.range(1, 5),
        };
        let path = c.rng.bytes(n);
        // bytes that lead down the path, then anything
        let mut b = Vec::new();
        for s in &path {
            match s % 8 {
                0 => b.push(1),
                1 => put_varint(&mut b, 1 + c.rng.below(300) as u64, 64),
                6 => {
                    b.push(1);
                    b.extend(b"\x01k");
                }
                7 => b.push(c.rng.below(2) as u8),
                _ => {}
            }
        }
        let lead = b.len();
        match c.rng.below(4) {
            0 => {}
            1 => b.extend([0u8; 40]),
            2 => b.extend([1u8; 40]),
            _ => {
                let n = c.rng.below(60);
                b.extend(c.rng.bytes(n))
            }
        }
        let mut rd = MonReader::new(&b);
        let got = guard("deserialize", || AskAt(&path, ask).deserialize(&mut Deserializer::new(&mut rd)))?;
        ensure!(got.is_err(), "{:?} below {:?} gives a value from {}", ask, path, hex(&b));
        ensure!(rd.pos >= lead, "{:?} below {:?}: the request was not reached ({} of {} bytes)", ask, path, rd.pos, lead);
        c.count("decode_requests_refused", 1);
        c.max("path_length", path.len() as u64);
        c.seen(mix(hash_bytes(&path), ask as u64));
        Ok(())
    });
    run.section("decode-real-types", run.n(4_000, 100_000), |c| {
        let mut b = match c.rng.below(4) {
            0 => vec![],
            1 => vec![0; 40],
            2 => vec![1; 40],
            _ => {
                let n = c.rng.below(60);
                c.rng.bytes(n)
            }
        };
        for (name, f) in REAL_DE {
            ensure!(!f(&b)?, "{} is decoded from {}", name, hex(&b));
            c.evals(1);
        }
        b.insert(0, 1);
        for (name, f) in REAL_DE_IN {
            ensure!(!f(&b)?, "{} is decoded from {}", name, hex(&b));
            c.evals(1);
        }
        // an empty container asks nothing
        for (name, f) in REAL_DE_IN {
            ensure!(f(&[0])?, "an empty {} is refused", name);
        }
        c.count("decode_real_types_refused", (REAL_DE.len() + REAL_DE_IN.len()) as u64);
        c.seen_bytes(&b);
        Ok(())
    });
    known(run);
}

fn refuse(c: &mut Case, path: &[u8], r: &Request) -> R {
    let (res, out) = At(path, r).run(r)?;
    if res.is_ok() {
        vio!("{:?} below the path {:?} is written as {}", r, path, hex(&out))
    }
    c.count("requests_refused", 1);
    c.max("path_length", path.len() as u64);
    c.seen(mix(hash_bytes(path), hash_bytes(format!("{:?}", r).as_bytes())));
    c.sample(|| format!("{:?} below {:?}: {:?}", r, path, res));
    Ok(())
}

struct NoLen(bool);
impl Serialize for NoLen {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.0 {
            let mut q = s.serialize_map(None)?;
            q.serialize_entry("k", &7u8)?;
            q.end()
        } else {
            let mut q = s.serialize_seq(None)?;
            q.serialize_element(&7u8)?;
            q.serialize_element(&8u8)?;
            q.end()
        }
    }
}

/// Sequences and maps of unknown length are written without a length: a known finding, and only in
/// this form (elements without a prefix). Any other bytes would be something else.
fn known(run: &Run) {
    if run.cfg.replay.is_some() {
        return;
    }
    for (map, want) in [(false, vec![7u8, 8]), (true, vec![1, b'k', 7])] {
        let what = if map { "map" } else { "sequence" };
        match ser(&NoLen(map)) {
            Ok(Err(_)) => {}
            Ok(Ok(b)) if b == want => run.known(format!(
                "KNOWN-FINDING: property={} a {} of unknown length is written without a length prefix ({})",
                run.cfg.prop,
                what,
                hex(&b)
            )),
            // with a length it would be right
            Ok(Ok(b)) if b[0] as usize == if map { 1 } else { 2 } && b[1..] == want[..] => {}
            Ok(Ok(b)) => run.violation("unknown-length", 0, 0, format!("a {} of unknown length is written as {}", what, hex(&b))),
            Err(Broken::Vio(m)) => run.violation("unknown-length", 0, 0, m),
            Err(Broken::Harness(m)) => run.harness_error(m),
        }
    }
    // serde says nothing about the fields a tuple struct leaves out: a known finding in this form
    match ser(&SometimesTuple(1, None, 2)) {
        Ok(Err(_)) => {}
        Ok(Ok(b)) if b == [1, 2] => run.known(format!(
            "KNOWN-FINDING: property={} a conditionally skipped field of a tuple struct is left out of the bytes (0102)",
            run.cfg.prop
        )),
        Ok(Ok(b)) if b == [1, 0, 2] => {}
        Ok(Ok(b)) => run.violation("skipped-tuple-field", 0, 0, format!("a tuple struct with a skipped field is written as {}", hex(&b))),
        Err(Broken::Vio(m)) => run.violation("skipped-tuple-field", 0, 0, m),
        Err(Broken::Harness(m)) => run.harness_error(m),
    }
    run.count("probes", 3);
}
