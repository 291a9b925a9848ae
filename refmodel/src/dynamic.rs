//! Bridges between the model and dlhn's dynamic types (`Header`, `Body`, the number/date wrappers).
use crate::val::{Shape, Val, Variant};
use crate::wire::encode;
use dlhn::{BigDecimal, BigInt, BigUint, Body, Date, DateTime, Header};
use serde::de::DeserializeOwned;
use serde_bytes::ByteBuf;

/// The header that describes a shape; None when it has none (sparse enum indexes, too many
/// elements).
pub fn to_header(s: &Shape) -> Option<Header> {
    fn all(v: &[Shape]) -> Option<Vec<Header>> {
        if v.len() > 65535 {
            return None;
        }
        v.iter().map(to_header).collect()
    }
    Some(match s {
        Shape::Unit => Header::Unit,
        Shape::UnitStruct => Header::Tuple(vec![]),
        Shape::Bool => Header::Boolean,
        Shape::U8 => Header::UInt8,
        Shape::U16 => Header::UInt16,
        Shape::U32 => Header::UInt32,
        Shape::U64 => Header::UInt64,
        Shape::I8 => Header::Int8,
        Shape::I16 => Header::Int16,
        Shape::I32 => Header::Int32,
        Shape::I64 => Header::Int64,
        Shape::F32 => Header::Float32,
        Shape::F64 => Header::Float64,
        Shape::Char => return None,
        Shape::Str => Header::String,
        Shape::Bytes => Header::Binary,
        Shape::Opt(s) => Header::Optional(Box::new(to_header(s)?)),
        Shape::Seq(s) => Header::Array(Box::new(to_header(s)?)),
        Shape::Map(s) => Header::Map(Box::new(to_header(s)?)),
        Shape::Newtype(s) => Header::Tuple(vec![to_header(s)?]),
        Shape::Tuple(v) if v.is_empty() => Header::Unit,
        Shape::Tuple(v) | Shape::TupleStruct(v) | Shape::Struct(v) => Header::Tuple(all(v)?),
        Shape::Enum(vs) => {
            let mut out = Vec::new();
            for (k, (i, var)) in vs.iter().enumerate() {
                if *i as usize != k {
                    return None;
                }
                out.push(match var {
                    Variant::Unit => Header::Unit,
                    Variant::Newtype(s) => to_header(s)?,
                    Variant::Tuple(v) | Variant::Struct(v) => Header::Tuple(all(v)?),
                });
            }
            if out.len() > 65535 {
                return None;
            }
            Header::Enum(out)
        }
        Shape::BigUint => Header::BigUInt,
        Shape::BigInt => Header::BigInt,
        Shape::BigDec => Header::BigDecimal,
        Shape::Date => Header::Date,
        Shape::DateTime => Header::DateTime,
    })
}

/// A shape whose values are exactly the bodies of the header.
pub fn header_shape(h: &Header) -> Shape {
    match h {
        Header::Unit => Shape::Unit,
        Header::Optional(h) => Shape::Opt(Box::new(header_shape(h))),
        Header::Boolean => Shape::Bool,
        Header::UInt8 => Shape::U8,
        Header::UInt16 => Shape::U16,
        Header::UInt32 => Shape::U32,
        Header::UInt64 => Shape::U64,
        Header::Int8 => Shape::I8,
        Header::Int16 => Shape::I16,
        Header::Int32 => Shape::I32,
        Header::Int64 => Shape::I64,
        Header::Float32 => Shape::F32,
        Header::Float64 => Shape::F64,
        Header::BigUInt => Shape::BigUint,
        Header::BigInt => Shape::BigInt,
        Header::BigDecimal => Shape::BigDec,
        Header::String => Shape::Str,
        Header::Binary => Shape::Bytes,
        Header::Array(h) => Shape::Seq(Box::new(header_shape(h))),
        Header::Tuple(v) => Shape::TupleStruct(v.iter().map(header_shape).collect()),
        Header::Map(h) => Shape::Map(Box::new(header_shape(h))),
        Header::Enum(v) => Shape::Enum(
            v.iter()
                .enumerate()
                .map(|(i, h)| (i as u32, Variant::Newtype(header_shape(h))))
                .collect(),
        ),
        Header::Date => Shape::Date,
        Header::DateTime => Shape::DateTime,
    }
}

pub fn header_nodes(h: &Header) -> usize {
    1 + match h {
        Header::Optional(h) | Header::Array(h) | Header::Map(h) => header_nodes(h),
        Header::Tuple(v) | Header::Enum(v) => v.iter().map(header_nodes).sum(),
        _ => 0,
    }
}

/// Builds one of dlhn's opaque wrappers from its raw content.
pub fn wrap<T: DeserializeOwned>(v: &Val) -> Result<T, String> {
    let b = encode(v);
    let mut r = b.as_slice();
    let out = T::deserialize(&mut dlhn::Deserializer::new(&mut r))
        .map_err(|e| format!("wrapper refuses its own encoding {:?}: {:?}", v, e))?;
    if !r.is_empty() {
        return Err(format!("wrapper leaves {} bytes of {:?}", r.len(), v));
    }
    Ok(out)
}

/// The dynamic body with this content. `enum_tuple`: see below. Val::Tuple of a sequence of zero
/// shapes is a Tuple body except where the header is Unit.
pub fn to_body(s: &Shape, v: &Val) -> Result<Body, String> {
    fn many(s: &[Shape], v: &[Val]) -> Result<Vec<Body>, String> {
        s.iter().zip(v).map(|(s, v)| to_body(s, v)).collect()
    }
    Ok(match (s, v) {
        (Shape::Unit, Val::Unit) => Body::Unit,
        (Shape::UnitStruct, Val::Unit) => Body::Tuple(vec![]),
        (Shape::Opt(_), Val::None) => Body::Optional(None),
        (Shape::Opt(s), Val::Some(v)) => Body::Optional(Some(Box::new(to_body(s, v)?))),
        (Shape::Bool, Val::Bool(x)) => Body::Boolean(*x),
        (Shape::U8, Val::U8(x)) => Body::UInt8(*x),
        (Shape::U16, Val::U16(x)) => Body::UInt16(*x),
        (Shape::U32, Val::U32(x)) => Body::UInt32(*x),
        (Shape::U64, Val::U64(x)) => Body::UInt64(*x),
        (Shape::I8, Val::I8(x)) => Body::Int8(*x),
        (Shape::I16, Val::I16(x)) => Body::Int16(*x),
        (Shape::I32, Val::I32(x)) => Body::Int32(*x),
        (Shape::I64, Val::I64(x)) => Body::Int64(*x),
        (Shape::F32, Val::F32(x)) => Body::Float32(f32::from_bits(*x)),
        (Shape::F64, Val::F64(x)) => Body::Float64(f64::from_bits(*x)),
        (Shape::Str, Val::Str(x)) => Body::String(x.clone()),
        (Shape::Bytes, Val::Bytes(x)) => Body::Binary(ByteBuf::from(x.clone())),
        (Shape::Seq(s), Val::Seq(v)) => {
            Body::Array(v.iter().map(|v| to_body(s, v)).collect::<Result<_, _>>()?)
        }
        (Shape::Tuple(s), Val::Tuple(_)) if s.is_empty() => Body::Unit,
        (Shape::Tuple(s) | Shape::TupleStruct(s) | Shape::Struct(s), Val::Tuple(v)) => {
            Body::Tuple(many(s, v)?)
        }
        (Shape::Newtype(s), v) => Body::Tuple(vec![to_body(s, v)?]),
        (Shape::Map(s), Val::Map(m)) => {
            let mut b = std::collections::BTreeMap::new();
            for (k, v) in m {
                b.insert(k.clone(), to_body(s, v)?);
            }
            Body::Map(b)
        }
        (Shape::Enum(vs), Val::Enum(i, v)) => {
            let (_, var) = vs.iter().find(|(k, _)| k == i).ok_or("model: bad variant")?;
            Body::Enum(
                *i,
                Box::new(match (var, &**v) {
                    (Variant::Unit, _) => Body::Unit,
                    (Variant::Newtype(s), v) => to_body(s, v)?,
                    (Variant::Tuple(s) | Variant::Struct(s), Val::Tuple(v)) => {
                        Body::Tuple(many(s, v)?)
                    }
                    _ => return Err("model: bad variant content".into()),
                }),
            )
        }
        (Shape::BigUint, Val::BigUint(_)) => Body::BigUInt(wrap::<BigUint>(v)?),
        (Shape::BigInt, Val::BigInt(_)) => Body::BigInt(wrap::<BigInt>(v)?),
        (Shape::BigDec, Val::BigDec(..)) => Body::BigDecimal(wrap::<BigDecimal>(v)?),
        (Shape::Date, Val::Date(..)) => Body::Date(wrap::<Date>(v)?),
        (Shape::DateTime, Val::DateTime(..)) => Body::DateTime(wrap::<DateTime>(v)?),
        (s, v) => return Err(format!("model: {} does not fit {}", v.brief(), s.brief())),
    })
}

/// Equality of bodies with floats compared by their bits.
pub fn body_eq(a: &Body, b: &Body) -> bool {
    match (a, b) {
        (Body::Float32(a), Body::Float32(b)) => a.to_bits() == b.to_bits(),
        (Body::Float64(a), Body::Float64(b)) => a.to_bits() == b.to_bits(),
        (Body::Optional(a), Body::Optional(b)) => match (a, b) {
            (Some(a), Some(b)) => body_eq(a, b),
            (None, None) => true,
            _ => false,
        },
        (Body::Array(a), Body::Array(b)) | (Body::Tuple(a), Body::Tuple(b)) => {
            a.len() == b.len() && a.iter().zip(b).all(|(a, b)| body_eq(a, b))
        }
        (Body::Map(a), Body::Map(b)) => {
            a.len() == b.len()
                && a.iter().zip(b).all(|((k, a), (l, b))| k == l && body_eq(a, b))
        }
        (Body::Enum(i, a), Body::Enum(j, b)) => i == j && body_eq(a, b),
        _ => a == b,
    }
}

/// Does the body conform to the header? (the model of `Body::validate`)
pub fn conforms(b: &Body, h: &Header) -> bool {
    match h {
        Header::Unit => matches!(b, Body::Unit),
        Header::Optional(h) => match b {
            Body::Optional(None) => true,
            Body::Optional(Some(b)) => conforms(b, h),
            _ => false,
        },
        Header::Boolean => matches!(b, Body::Boolean(_)),
        Header::UInt8 => matches!(b, Body::UInt8(_)),
        Header::UInt16 => matches!(b, Body::UInt16(_)),
        Header::UInt32 => matches!(b, Body::UInt32(_)),
        Header::UInt64 => matches!(b, Body::UInt64(_)),
        Header::Int8 => matches!(b, Body::Int8(_)),
        Header::Int16 => matches!(b, Body::Int16(_)),
        Header::Int32 => matches!(b, Body::Int32(_)),
        Header::Int64 => matches!(b, Body::Int64(_)),
        Header::Float32 => matches!(b, Body::Float32(_)),
        Header::Float64 => matches!(b, Body::Float64(_)),
        Header::BigUInt => matches!(b, Body::BigUInt(_)),
        Header::BigInt => matches!(b, Body::BigInt(_)),
        Header::BigDecimal => matches!(b, Body::BigDecimal(_)),
        Header::String => matches!(b, Body::String(_)),
        Header::Binary => matches!(b, Body::Binary(_)),
        Header::Date => matches!(b, Body::Date(_)),
        Header::DateTime => matches!(b, Body::DateTime(_)),
        Header::Array(h) => match b {
            Body::Array(v) => v.iter().all(|b| conforms(b, h)),
            _ => false,
        },
        Header::Map(h) => match b {
            Body::Map(m) => m.values().all(|b| conforms(b, h)),
            _ => false,
        },
        Header::Tuple(hs) => match b {
            Body::Tuple(v) => v.len() == hs.len() && v.iter().zip(hs).all(|(b, h)| conforms(b, h)),
            _ => false,
        },
        Header::Enum(hs) => match b {
            Body::Enum(i, b) => match hs.get(*i as usize) {
                Some(h) => conforms(b, h),
                None => false,
            },
            _ => false,
        },
    }
}
