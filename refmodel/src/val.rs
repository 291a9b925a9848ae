//! Content (`Val`) and type (`Shape`), independent of any Rust type of the code under test.

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Val {
    Unit,
    None,
    Some(Box<Val>),
    Bool(bool),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    /// bit patterns, so that NaNs compare
    F32(u32),
    F64(u64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    Seq(Vec<Val>),
    Tuple(Vec<Val>),
    /// entries in encounter order
    Map(Vec<(String, Val)>),
    Enum(u32, Box<Val>),
    BigUint(Vec<u8>),
    BigInt(Vec<u8>),
    /// the scale of an empty byte string is absent on the wire and 0 here
    BigDec(Vec<u8>, i64),
    Date(i32, u16),
    DateTime(i64, u32),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Shape {
    Unit,
    UnitStruct,
    Bool,
    U8,
    U16,
    U32,
    U64,
    I8,
    I16,
    I32,
    I64,
    F32,
    F64,
    Char,
    Str,
    Bytes,
    Opt(Box<Shape>),
    Seq(Box<Shape>),
    Tuple(Vec<Shape>),
    TupleStruct(Vec<Shape>),
    Newtype(Box<Shape>),
    Struct(Vec<Shape>),
    Map(Box<Shape>),
    /// (variant index, variant), ascending by index; dense enums have index = position
    Enum(Vec<(u32, Variant)>),
    BigUint,
    BigInt,
    BigDec,
    Date,
    DateTime,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Variant {
    Unit,
    Newtype(Shape),
    Tuple(Vec<Shape>),
    Struct(Vec<Shape>),
}

impl Shape {
    /// Least number of bytes an encoding takes.
    pub fn min_width(&self) -> usize {
        match self {
            Shape::Unit | Shape::UnitStruct => 0,
            Shape::F32 => 4,
            Shape::F64 => 8,
            Shape::Char => 2,
            Shape::Tuple(v) | Shape::TupleStruct(v) | Shape::Struct(v) => {
                v.iter().map(|s| s.min_width()).sum()
            }
            Shape::Newtype(s) => s.min_width(),
            Shape::Date | Shape::DateTime => 2,
            _ => 1,
        }
    }
    pub fn nodes(&self) -> usize {
        1 + match self {
            Shape::Opt(s) | Shape::Seq(s) | Shape::Map(s) | Shape::Newtype(s) => s.nodes(),
            Shape::Tuple(v) | Shape::TupleStruct(v) | Shape::Struct(v) => {
                v.iter().map(|s| s.nodes()).sum()
            }
            Shape::Enum(v) => v
                .iter()
                .map(|(_, v)| match v {
                    Variant::Unit => 1,
                    Variant::Newtype(s) => s.nodes(),
                    Variant::Tuple(v) | Variant::Struct(v) => {
                        1 + v.iter().map(|s| s.nodes()).sum::<usize>()
                    }
                })
                .sum(),
            _ => 0,
        }
    }
    pub fn depth(&self) -> usize {
        1 + match self {
            Shape::Opt(s) | Shape::Seq(s) | Shape::Map(s) | Shape::Newtype(s) => s.depth(),
            Shape::Tuple(v) | Shape::TupleStruct(v) | Shape::Struct(v) => {
                v.iter().map(|s| s.depth()).max().unwrap_or(0)
            }
            Shape::Enum(v) => v
                .iter()
                .map(|(_, v)| match v {
                    Variant::Unit => 0,
                    Variant::Newtype(s) => s.depth(),
                    Variant::Tuple(v) | Variant::Struct(v) => {
                        1 + v.iter().map(|s| s.depth()).max().unwrap_or(0)
                    }
                })
                .max()
                .unwrap_or(0),
            _ => 0,
        }
    }
    /// Does it hold a sequence whose elements take no bytes? Their count is then bounded by nothing
    /// in the input (a known finding); hostile inputs are kept away from such shapes.
    pub fn has_zero_width_elements(&self) -> bool {
        match self {
            Shape::Seq(s) => s.min_width() == 0 || s.has_zero_width_elements(),
            Shape::Opt(s) | Shape::Map(s) | Shape::Newtype(s) => s.has_zero_width_elements(),
            Shape::Tuple(v) | Shape::TupleStruct(v) | Shape::Struct(v) => {
                v.iter().any(|s| s.has_zero_width_elements())
            }
            Shape::Enum(v) => v.iter().any(|(_, v)| match v {
                Variant::Unit => false,
                Variant::Newtype(s) => s.has_zero_width_elements(),
                Variant::Tuple(v) | Variant::Struct(v) => {
                    v.iter().any(|s| s.has_zero_width_elements())
                }
            }),
            _ => false,
        }
    }
    pub fn brief(&self) -> String {
        let s = format!("{:?}", self);
        clip(&s, 300)
    }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut k = n;
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    format!("{}… ({} chars)", &s[..k], s.len())
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(96) {
        s.push_str(&format!("{:02x}", x));
    }
    if b.len() > 96 {
        s.push_str(&format!("…({} bytes)", b.len()));
    }
    s
}

impl Val {
    pub fn brief(&self) -> String {
        clip(&format!("{:?}", self), 300)
    }
    /// The same content as a dynamic body holds it: maps sorted, last entry of a key wins.
    pub fn normalize_maps(&self) -> Val {
        match self {
            Val::Map(m) => {
                let mut b = std::collections::BTreeMap::new();
                for (k, v) in m {
                    b.insert(k.clone(), v.normalize_maps());
                }
                Val::Map(b.into_iter().collect())
            }
            Val::Some(v) => Val::Some(Box::new(v.normalize_maps())),
            Val::Seq(v) => Val::Seq(v.iter().map(|v| v.normalize_maps()).collect()),
            Val::Tuple(v) => Val::Tuple(v.iter().map(|v| v.normalize_maps()).collect()),
            Val::Enum(i, v) => Val::Enum(*i, Box::new(v.normalize_maps())),
            v => v.clone(),
        }
    }
}
