//! Run-time serde programs: `Typed` drives every method of a serde Serializer the way derived code
//! does, `Seed` reads a value of a run-time type the way derived code does.
use crate::dynamic::wrap;
use crate::val::{Shape, Val, Variant};
use crate::wire;
use dlhn::{BigDecimal, BigInt, BigUint, Date, DateTime};
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{
    self, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple,
    SerializeTupleStruct, SerializeTupleVariant, Serializer,
};
use serde::{Deserialize, Serialize};
use std::fmt;
use std::hash::{Hash, Hasher};
use std::sync::OnceLock;

pub const MAX_FIELDS: usize = 512;

/// Errors of user code: when armed, the n-th step of `Typed` or `Seed` on this thread fails, and
/// what happens from then on is recorded.
pub mod fuse {
    use serde::{de, ser};
    use std::cell::{Cell, RefCell};

    thread_local! {
        static ARMED: Cell<bool> = const { Cell::new(false) };
        static LEFT: Cell<u64> = const { Cell::new(0) };
        static PASSED: Cell<u64> = const { Cell::new(0) };
        static AFTER: Cell<u64> = const { Cell::new(0) };
        static BLOWN: Cell<Option<usize>> = const { Cell::new(None) };
        static POS: Cell<usize> = const { Cell::new(0) };
        static FORM: Cell<u8> = const { Cell::new(0) };
        static TEXT: RefCell<String> = const { RefCell::new(String::new()) };
    }

    pub const FORMS: u8 = 8;

    #[derive(Debug, Default, Clone, Copy)]
    pub struct Report {
        /// steps taken before the failing one
        pub passed: u64,
        /// steps taken after it
        pub after: u64,
        /// bytes that had been transferred when it failed
        pub blown: Option<usize>,
    }

    pub fn arm(n: u64, form: u8, text: &str) {
        LEFT.set(n);
        PASSED.set(0);
        AFTER.set(0);
        BLOWN.set(None);
        POS.set(0);
        FORM.set(form);
        TEXT.with(|t| *t.borrow_mut() = text.to_string());
        ARMED.set(true);
    }
    pub fn disarm() -> Report {
        ARMED.set(false);
        Report { passed: PASSED.get(), after: AFTER.get(), blown: BLOWN.get() }
    }
    /// called by the monitored reader and writer
    pub fn at(pos: usize) {
        POS.set(pos)
    }
    pub(super) fn tick() -> bool {
        if !ARMED.get() {
            return false;
        }
        if BLOWN.get().is_some() {
            AFTER.set(AFTER.get() + 1);
            return false;
        }
        if LEFT.get() == 0 {
            BLOWN.set(Some(POS.get()));
            return true;
        }
        LEFT.set(LEFT.get() - 1);
        PASSED.set(PASSED.get() + 1);
        false
    }
    pub fn ser_err<E: ser::Error>() -> E {
        TEXT.with(|t| E::custom(t.borrow()))
    }
    pub fn de_err<E: de::Error>() -> E {
        TEXT.with(|t| {
            let t = t.borrow();
            match FORM.get() {
                0 => E::invalid_type(de::Unexpected::Str(&t), &"something else"),
                1 => E::invalid_value(de::Unexpected::Signed(-7), &t.as_str()),
                2 => E::invalid_length(t.len(), &"another length"),
                3 => E::unknown_variant(&t, &["a", "b"]),
                4 => E::unknown_field(&t, &["a"]),
                5 => E::missing_field("left"),
                6 => E::duplicate_field("twice"),
                _ => E::custom(&*t),
            }
        })
    }
}

/// A map key, or anything else that is a string, with a step of its own.
struct Text<'a>(&'a str);
impl<'a> Serialize for Text<'a> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if fuse::tick() {
            return Err(fuse::ser_err());
        }
        s.serialize_str(self.0)
    }
}

struct Pieces<'a>(&'a str);
impl<'a> fmt::Display for Pieces<'a> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let n = self.0.char_indices().nth(1).map_or(self.0.len(), |c| c.0);
        let (a, b) = self.0.split_at(n);
        f.write_str(a)?;
        write!(f, "{}{}", "", b)
    }
}

struct TextSeed;
impl<'de> DeserializeSeed<'de> for TextSeed {
    type Value = String;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<String, D::Error> {
        if fuse::tick() {
            return Err(fuse::de_err());
        }
        let s = String::deserialize(d)?;
        if fuse::tick() {
            return Err(fuse::de_err());
        }
        Ok(s)
    }
}

/// How a type with these parts is named. Types of different parts often share their name, or the number of
/// their fields, but not the names of the fields; some names mean something to other formats.
struct Label {
    name: &'static str,
    set: usize,
}

const TYPES: [&str; 7] = ["S", "Point", "", "Body", "Option", "$serde_json::private::Number", "é ü"];
const SETS: usize = 6;
const FEW: usize = 32;

/// A hash that is the same on all platforms.
struct Sum(u64);
impl Hasher for Sum {
    fn finish(&self) -> u64 {
        self.0 ^ self.0 >> 29
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.write_u64(*b as u64);
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0 ^ x).wrapping_mul(0x100_0000_01b3);
    }
    fn write_isize(&mut self, x: isize) {
        self.write_u64(x as u64);
    }
}

fn label<'a>(parts: impl ExactSizeIterator<Item = &'a Shape>) -> Label {
    let few = parts.len() <= FEW;
    let mut h = Sum(0xcbf2_9ce4_8422_2325);
    for s in parts.take(16) {
        std::mem::discriminant(s).hash(&mut h);
    }
    let h = h.finish();
    Label { name: TYPES[(h % TYPES.len() as u64) as usize], set: if few { (h / 64 % SETS as u64) as usize } else { 0 } }
}

fn label_of(vs: &[(u32, Variant)]) -> Label {
    label(vs.iter().map(|(_, v)| match v {
        Variant::Unit => &Shape::Unit,
        Variant::Newtype(s) => s,
        Variant::Tuple(v) | Variant::Struct(v) => v.first().unwrap_or(&Shape::Unit),
    }))
}

impl Label {
    fn names(&self) -> &'static [&'static str] {
        static NAMES: [OnceLock<Vec<&'static str>>; SETS] = [const { OnceLock::new() }; SETS];
        NAMES[self.set].get_or_init(|| {
            (0..if self.set == 0 { MAX_FIELDS } else { FEW })
                .map(|i| match self.set {
                    0 => format!("f{}", i),
                    1 => format!("{}", i),
                    2 => format!("z{:03}", MAX_FIELDS - i),
                    // one starts with the other
                    3 => "a".repeat(i),
                    4 => ["type", "é", "$value", " ", "serde", "a.b", "#text", "x"].get(i).map(|s| s.to_string()).unwrap_or(format!("_{}", i)),
                    _ => format!("v{}", i),
                })
                .map(|s| &*Box::leak(s.into_boxed_str()))
                .collect()
        })
    }
    fn fields(&self, n: usize) -> &'static [&'static str] {
        &self.names()[..n]
    }
}

pub struct Typed<'a>(pub &'a Shape, pub &'a Val);

impl<'a> Serialize for Typed<'a> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if fuse::tick() {
            return Err(fuse::ser_err());
        }
        match (self.0, self.1) {
            (Shape::Unit, _) => s.serialize_unit(),
            (Shape::UnitStruct, _) => s.serialize_unit_struct("U"),
            (_, Val::Bool(x)) => s.serialize_bool(*x),
            (Shape::U8, Val::U8(x)) => s.serialize_u8(*x),
            (Shape::U16, Val::U16(x)) => s.serialize_u16(*x),
            (Shape::U32, Val::U32(x)) => s.serialize_u32(*x),
            (Shape::U64, Val::U64(x)) => s.serialize_u64(*x),
            (Shape::I8, Val::I8(x)) => s.serialize_i8(*x),
            (Shape::I16, Val::I16(x)) => s.serialize_i16(*x),
            (Shape::I32, Val::I32(x)) => s.serialize_i32(*x),
            (Shape::I64, Val::I64(x)) => s.serialize_i64(*x),
            (Shape::F32, Val::F32(x)) => s.serialize_f32(f32::from_bits(*x)),
            (Shape::F64, Val::F64(x)) => s.serialize_f64(f64::from_bits(*x)),
            (Shape::Char, Val::Char(x)) => s.serialize_char(*x),
            // text that only displays itself comes in pieces
            (Shape::Str, Val::Str(x)) if x.len() % 4 == 1 => s.collect_str(&Pieces(x)),
            (Shape::Str, Val::Str(x)) => s.serialize_str(x),
            (Shape::Bytes, Val::Bytes(x)) => s.serialize_bytes(x),
            (Shape::Opt(_), Val::None) => s.serialize_none(),
            (Shape::Opt(i), Val::Some(v)) => s.serialize_some(&Typed(i, v)),
            (Shape::Seq(i), Val::Seq(v)) if v.len() % 4 == 1 => s.collect_seq(v.iter().map(|x| Typed(i, x))),
            (Shape::Seq(i), Val::Seq(v)) => {
                let mut q = s.serialize_seq(Some(v.len()))?;
                for x in v {
                    q.serialize_element(&Typed(i, x))?;
                }
                q.end()
            }
            (Shape::Tuple(i), Val::Tuple(v)) => {
                let mut q = s.serialize_tuple(v.len())?;
                for (i, x) in i.iter().zip(v) {
                    q.serialize_element(&Typed(i, x))?;
                }
                q.end()
            }
            (Shape::TupleStruct(i), Val::Tuple(v)) => {
                let mut q = s.serialize_tuple_struct("T", v.len())?;
                for (i, x) in i.iter().zip(v) {
                    q.serialize_field(&Typed(i, x))?;
                }
                q.end()
            }
            (Shape::Newtype(i), v) => s.serialize_newtype_struct("N", &Typed(i, v)),
            (Shape::Struct(i), Val::Tuple(v)) => {
                let l = label(i.iter());
                let mut q = s.serialize_struct(l.name, v.len())?;
                for ((i, x), f) in i.iter().zip(v).zip(l.fields(v.len())) {
                    q.serialize_field(f, &Typed(i, x))?;
                }
                q.end()
            }
            (Shape::Map(i), Val::Map(m)) if m.len() % 4 == 1 => s.collect_map(m.iter().map(|(k, x)| (Text(k), Typed(i, x)))),
            (Shape::Map(i), Val::Map(m)) => {
                let mut q = s.serialize_map(Some(m.len()))?;
                for (n, (k, x)) in m.iter().enumerate() {
                    if n % 2 == 0 {
                        q.serialize_entry(&Text(k), &Typed(i, x))?;
                    } else {
                        q.serialize_key(&Text(k))?;
                        q.serialize_value(&Typed(i, x))?;
                    }
                }
                q.end()
            }
            (Shape::Enum(vs), Val::Enum(idx, v)) => {
                let (_, var) = vs
                    .iter()
                    .find(|(k, _)| k == idx)
                    .ok_or_else(|| ser::Error::custom("model: bad variant"))?;
                let l = label_of(vs);
                let vn = l.names().get(*idx as usize).unwrap_or(&"");
                match (var, &**v) {
                    (Variant::Unit, _) => s.serialize_unit_variant(l.name, *idx, vn),
                    (Variant::Newtype(i), v) => {
                        s.serialize_newtype_variant(l.name, *idx, vn, &Typed(i, v))
                    }
                    (Variant::Tuple(i), Val::Tuple(v)) => {
                        let mut q = s.serialize_tuple_variant(l.name, *idx, vn, v.len())?;
                        for (i, x) in i.iter().zip(v) {
                            q.serialize_field(&Typed(i, x))?;
                        }
                        q.end()
                    }
                    (Variant::Struct(i), Val::Tuple(v)) => {
                        let mut q = s.serialize_struct_variant(l.name, *idx, vn, v.len())?;
                        for ((i, x), f) in i.iter().zip(v).zip(label(i.iter()).fields(v.len())) {
                            q.serialize_field(f, &Typed(i, x))?;
                        }
                        q.end()
                    }
                    _ => Err(ser::Error::custom("model: bad variant content")),
                }
            }
            (Shape::BigUint, v) => w::<BigUint, S>(v)?.serialize(s),
            (Shape::BigInt, v) => w::<BigInt, S>(v)?.serialize(s),
            (Shape::BigDec, v) => w::<BigDecimal, S>(v)?.serialize(s),
            (Shape::Date, v) => w::<Date, S>(v)?.serialize(s),
            (Shape::DateTime, v) => w::<DateTime, S>(v)?.serialize(s),
            (s, v) => Err(ser::Error::custom(format!("model: {:?} is no {:?}", v, s))),
        }
    }
}

fn w<T: de::DeserializeOwned, S: Serializer>(v: &Val) -> Result<T, S::Error> {
    wrap::<T>(v).map_err(ser::Error::custom)
}

/// Content of one of dlhn's opaque wrappers.
pub fn unwrap_wrapper<T: Serialize>(t: &T, s: &Shape) -> Result<Val, String> {
    let mut b = Vec::new();
    t.serialize(&mut dlhn::Serializer::new(&mut b)).map_err(|e| format!("{:?}", e))?;
    match wire::decode(s, &b) {
        Ok(d) if d.used == b.len() => Ok(d.val),
        r => Err(format!("wrapper writes {} which is no {:?} ({:?})", crate::val::hex(&b), s, r)),
    }
}

#[derive(Clone, Copy)]
pub struct Seed<'a>(pub &'a Shape);

struct IdentSeed<'a>(&'a [(u32, Variant)]);
impl<'de, 'a> DeserializeSeed<'de> for IdentSeed<'a> {
    type Value = u32;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<u32, D::Error> {
        if fuse::tick() {
            return Err(fuse::de_err());
        }
        d.deserialize_identifier(self)
    }
}
impl<'de, 'a> Visitor<'de> for IdentSeed<'a> {
    type Value = u32;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("variant identifier")
    }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<u32, E> {
        match self.0.iter().find(|(k, _)| *k as u64 == v) {
            Some((k, _)) => Ok(*k),
            None => Err(E::invalid_value(de::Unexpected::Unsigned(v), &"a variant index")),
        }
    }
}

struct FieldSeed(&'static [&'static str]);
impl<'de> DeserializeSeed<'de> for FieldSeed {
    type Value = usize;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<usize, D::Error> {
        d.deserialize_identifier(self)
    }
}
impl<'de> Visitor<'de> for FieldSeed {
    type Value = usize;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("field identifier")
    }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<usize, E> {
        if v < self.0.len() as u64 {
            Ok(v as usize)
        } else {
            Ok(usize::MAX)
        }
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<usize, E> {
        Ok(self.0.iter().position(|f| *f == v).unwrap_or(usize::MAX))
    }
}

impl<'de, 'a> DeserializeSeed<'de> for Seed<'a> {
    type Value = Val;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        fn u<T: Serialize, E: de::Error>(t: T, s: &Shape) -> Result<Val, E> {
            unwrap_wrapper(&t, s).map_err(E::custom)
        }
        if fuse::tick() {
            return Err(fuse::de_err());
        }
        let v = match self.0 {
            Shape::Unit => {
                <()>::deserialize(d)?;
                Val::Unit
            }
            Shape::Bool => Val::Bool(bool::deserialize(d)?),
            Shape::U8 => Val::U8(u8::deserialize(d)?),
            Shape::U16 => Val::U16(u16::deserialize(d)?),
            Shape::U32 => Val::U32(u32::deserialize(d)?),
            Shape::U64 => Val::U64(u64::deserialize(d)?),
            Shape::I8 => Val::I8(i8::deserialize(d)?),
            Shape::I16 => Val::I16(i16::deserialize(d)?),
            Shape::I32 => Val::I32(i32::deserialize(d)?),
            Shape::I64 => Val::I64(i64::deserialize(d)?),
            Shape::F32 => Val::F32(f32::deserialize(d)?.to_bits()),
            Shape::F64 => Val::F64(f64::deserialize(d)?.to_bits()),
            Shape::Char => Val::Char(char::deserialize(d)?),
            Shape::Str => Val::Str(String::deserialize(d)?),
            Shape::Bytes => Val::Bytes(serde_bytes::ByteBuf::deserialize(d)?.into_vec()),
            Shape::BigUint => u(BigUint::deserialize(d)?, self.0)?,
            Shape::BigInt => u(BigInt::deserialize(d)?, self.0)?,
            Shape::BigDec => u(BigDecimal::deserialize(d)?, self.0)?,
            Shape::Date => u(Date::deserialize(d)?, self.0)?,
            Shape::DateTime => u(DateTime::deserialize(d)?, self.0)?,
            Shape::UnitStruct => d.deserialize_unit_struct("U", Vis(self.0))?,
            Shape::Opt(_) => d.deserialize_option(Vis(self.0))?,
            Shape::Seq(_) => d.deserialize_seq(Vis(self.0))?,
            Shape::Tuple(v) => d.deserialize_tuple(v.len(), Vis(self.0))?,
            Shape::TupleStruct(v) => d.deserialize_tuple_struct("T", v.len(), Vis(self.0))?,
            Shape::Newtype(_) => d.deserialize_newtype_struct("N", Vis(self.0))?,
            Shape::Struct(v) => {
                let l = label(v.iter());
                d.deserialize_struct(l.name, l.fields(v.len()), Vis(self.0))?
            }
            Shape::Map(_) => d.deserialize_map(Vis(self.0))?,
            Shape::Enum(v) => {
                let l = label_of(v);
                d.deserialize_enum(l.name, l.fields(v.len().min(MAX_FIELDS)), Vis(self.0))?
            }
        };
        if fuse::tick() {
            return Err(fuse::de_err());
        }
        Ok(v)
    }
}

struct Vis<'a>(&'a Shape);

/// Visitors may go on until they are told that there is no more, and ask once more after that.
fn ended<E: de::Error>(more: bool) -> Result<(), E> {
    if more {
        Err(E::custom("there are elements after the last one"))
    } else {
        Ok(())
    }
}

fn visit_fields<'de, A: MapAccess<'de>>(shapes: &[Shape], mut a: A) -> Result<Val, A::Error> {
    let fields = label(shapes.iter()).fields(shapes.len());
    let mut got: Vec<Option<Val>> = (0..shapes.len()).map(|_| None).collect();
    while let Some(k) = a.next_key_seed(FieldSeed(fields))? {
        if k >= shapes.len() {
            a.next_value::<de::IgnoredAny>()?;
            continue;
        }
        if got[k].is_some() {
            return Err(de::Error::duplicate_field(fields[k]));
        }
        got[k] = Some(a.next_value_seed(Seed(&shapes[k]))?);
    }
    ended(a.next_key_seed(FieldSeed(fields))?.is_some())?;
    let mut out = Vec::with_capacity(got.len());
    for (i, g) in got.into_iter().enumerate() {
        out.push(g.ok_or_else(|| de::Error::missing_field(fields[i]))?);
    }
    Ok(Val::Tuple(out))
}

fn visit_elems<'de, A: SeqAccess<'de>>(shapes: &[Shape], mut a: A) -> Result<Val, A::Error> {
    let mut out = Vec::with_capacity(shapes.len());
    for (i, s) in shapes.iter().enumerate() {
        out.push(
            a.next_element_seed(Seed(s))?
                .ok_or_else(|| de::Error::invalid_length(i, &"all elements"))?,
        );
    }
    ended(a.next_element_seed(Seed(&Shape::U8))?.is_some())?;
    Ok(Val::Tuple(out))
}

struct FieldsVis<'a>(&'a [Shape]);
impl<'de, 'a> Visitor<'de> for FieldsVis<'a> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("fields")
    }
    fn visit_map<A: MapAccess<'de>>(self, a: A) -> Result<Val, A::Error> {
        visit_fields(self.0, a)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<Val, A::Error> {
        visit_elems(self.0, a)
    }
}

impl<'de, 'a> Visitor<'de> for Vis<'a> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "a {}", self.0.brief())
    }
    fn visit_unit<E: de::Error>(self) -> Result<Val, E> {
        match self.0 {
            Shape::UnitStruct => Ok(Val::Unit),
            Shape::Opt(_) => Ok(Val::None),
            _ => Err(E::invalid_type(de::Unexpected::Unit, &self)),
        }
    }
    fn visit_none<E: de::Error>(self) -> Result<Val, E> {
        match self.0 {
            Shape::Opt(_) => Ok(Val::None),
            _ => Err(E::invalid_type(de::Unexpected::Option, &self)),
        }
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        match self.0 {
            Shape::Opt(s) => Ok(Val::Some(Box::new(Seed(s).deserialize(d)?))),
            _ => Err(de::Error::invalid_type(de::Unexpected::Option, &self)),
        }
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        match self.0 {
            Shape::Newtype(s) => Seed(s).deserialize(d),
            _ => Err(de::Error::invalid_type(de::Unexpected::NewtypeStruct, &self)),
        }
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        match self.0 {
            Shape::Seq(s) => {
                let mut out = Vec::new();
                while let Some(v) = a.next_element_seed(Seed(s))? {
                    out.push(v);
                }
                ended(a.next_element_seed(Seed(s))?.is_some())?;
                Ok(Val::Seq(out))
            }
            Shape::Tuple(v) | Shape::TupleStruct(v) | Shape::Struct(v) => visit_elems(v, a),
            Shape::Newtype(s) => match a.next_element_seed(Seed(s))? {
                Some(v) => Ok(v),
                None => Err(de::Error::invalid_length(0, &"one element")),
            },
            _ => Err(de::Error::invalid_type(de::Unexpected::Seq, &self)),
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        match self.0 {
            Shape::Map(s) => {
                let mut out = Vec::new();
                let mut alt = false;
                loop {
                    // both access patterns derived and hand-written visitors use
                    alt = !alt;
                    if alt {
                        match a.next_key_seed(TextSeed)? {
                            Some(k) => out.push((k, a.next_value_seed(Seed(s))?)),
                            None => break,
                        }
                    } else {
                        match a.next_entry_seed(TextSeed, Seed(s))? {
                            Some(e) => out.push(e),
                            None => break,
                        }
                    }
                }
                ended(a.next_key_seed(TextSeed)?.is_some())?;
                Ok(Val::Map(out))
            }
            Shape::Struct(v) => visit_fields(v, a),
            _ => Err(de::Error::invalid_type(de::Unexpected::Map, &self)),
        }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Val, A::Error> {
        let vs = match self.0 {
            Shape::Enum(vs) => vs,
            _ => return Err(de::Error::invalid_type(de::Unexpected::Enum, &self)),
        };
        let (i, va) = a.variant_seed(IdentSeed(vs))?;
        let var = &vs.iter().find(|(k, _)| *k == i).unwrap().1;
        Ok(Val::Enum(
            i,
            Box::new(match var {
                Variant::Unit => {
                    va.unit_variant()?;
                    Val::Unit
                }
                Variant::Newtype(s) => va.newtype_variant_seed(Seed(s))?,
                Variant::Tuple(v) => va.tuple_variant(v.len(), FieldsVis(v))?,
                Variant::Struct(v) => va.struct_variant(label(v.iter()).fields(v.len()), FieldsVis(v))?,
            }),
        ))
    }
}
