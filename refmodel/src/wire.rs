//! Reference encoder and decoder, written from the format's rules (not from dlhn's code).
//!
//! Prefix varint of width w: a value of at most 7·L bits takes L bytes; the first byte starts with
//! L-1 one bits and a zero bit and carries the low 8-L bits, the other L-1 bytes carry the rest,
//! little endian. A value too long for the largest L takes a byte of leading ones and the w/8
//! little-endian bytes of the value.
use crate::val::{Shape, Val, Variant};
use dlhn::Header;

fn classes(width: u32) -> (u32, u8) {
    // (largest L, prefix byte of the full form)
    match width {
        16 => (2, 0b1100_0000),
        32 => (4, 0b1111_0000),
        64 => (8, 0b1111_1111),
        _ => unreachable!(),
    }
}

/// All encoded forms of `v`, smallest first (for u64 the L=8 form and the 9 byte form included).
pub fn varint_forms(v: u64, width: u32) -> Vec<Vec<u8>> {
    let (max_l, full) = classes(width);
    let mut out = Vec::new();
    for l in 1..=max_l {
        if 7 * l >= 64 || v >> (7 * l) == 0 {
            let prefix: u32 = !(0xffu32 >> (l - 1)) & 0xff;
            let low = 8 - l;
            let mut b = vec![(prefix | (v & ((1u64 << low) - 1)) as u32) as u8];
            b.extend_from_slice(&(v >> low).to_le_bytes()[..(l - 1) as usize]);
            out.push(b);
        }
    }
    let mut b = vec![full];
    b.extend_from_slice(&v.to_le_bytes()[..(width / 8) as usize]);
    out.push(b);
    out
}

pub fn put_varint(out: &mut Vec<u8>, v: u64, width: u32) {
    let (max_l, full) = classes(width);
    for l in 1..=max_l {
        if v >> (7 * l) == 0 {
            let prefix: u32 = !(0xffu32 >> (l - 1)) & 0xff;
            let low = 8 - l;
            out.push((prefix | (v & ((1u64 << low) - 1)) as u32) as u8);
            out.extend_from_slice(&(v >> low).to_le_bytes()[..(l - 1) as usize]);
            return;
        }
    }
    out.push(full);
    out.extend_from_slice(&v.to_le_bytes()[..(width / 8) as usize]);
}

pub fn zig(v: i64) -> u64 {
    if v >= 0 {
        (v as u64).wrapping_mul(2)
    } else {
        !((v as u64).wrapping_mul(2))
    }
}

pub fn unzig(v: u64) -> i64 {
    if v % 2 == 0 {
        (v / 2) as i64
    } else {
        -((v / 2) as i64) - 1
    }
}

fn put_len_bytes(out: &mut Vec<u8>, b: &[u8]) {
    put_varint(out, b.len() as u64, 64);
    out.extend_from_slice(b);
}

pub fn encode(v: &Val) -> Vec<u8> {
    let mut out = Vec::new();
    encode_into(v, &mut out);
    out
}

pub fn encode_into(v: &Val, out: &mut Vec<u8>) {
    match v {
        Val::Unit => {}
        Val::None => out.push(0),
        Val::Some(v) => {
            out.push(1);
            encode_into(v, out)
        }
        Val::Bool(b) => out.push(*b as u8),
        Val::U8(x) => out.push(*x),
        Val::U16(x) => put_varint(out, *x as u64, 16),
        Val::U32(x) => put_varint(out, *x as u64, 32),
        Val::U64(x) => put_varint(out, *x, 64),
        Val::I8(x) => out.push(*x as u8),
        Val::I16(x) => put_varint(out, zig(*x as i64), 16),
        Val::I32(x) => put_varint(out, zig(*x as i64), 32),
        Val::I64(x) => put_varint(out, zig(*x), 64),
        Val::F32(x) => out.extend_from_slice(&x.to_le_bytes()),
        Val::F64(x) => out.extend_from_slice(&x.to_le_bytes()),
        Val::Char(c) => {
            let mut b = [0u8; 4];
            put_len_bytes(out, c.encode_utf8(&mut b).as_bytes())
        }
        Val::Str(s) => put_len_bytes(out, s.as_bytes()),
        Val::Bytes(b) => put_len_bytes(out, b),
        Val::Seq(v) => {
            put_varint(out, v.len() as u64, 64);
            for x in v {
                encode_into(x, out)
            }
        }
        Val::Tuple(v) => {
            for x in v {
                encode_into(x, out)
            }
        }
        Val::Map(m) => {
            put_varint(out, m.len() as u64, 64);
            for (k, x) in m {
                put_len_bytes(out, k.as_bytes());
                encode_into(x, out)
            }
        }
        Val::Enum(i, v) => {
            put_varint(out, *i as u64, 32);
            encode_into(v, out)
        }
        Val::BigUint(b) | Val::BigInt(b) => put_len_bytes(out, b),
        Val::BigDec(b, scale) => {
            put_len_bytes(out, b);
            if !b.is_empty() {
                put_varint(out, zig(*scale), 64);
            }
        }
        Val::Date(y, o) => {
            put_varint(out, zig((*y).wrapping_sub(2000) as i64), 32);
            put_varint(out, (*o as u64).wrapping_sub(1) & 0xffff, 16);
        }
        Val::DateTime(t, n) => {
            put_varint(out, zig(*t), 64);
            put_varint(out, *n as u64, 32);
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fail {
    /// the bytes end inside a value
    Eof,
    /// the bytes cannot be the encoding of a value of the type
    Invalid,
    /// the model gave up (too many zero-width elements); no verdict
    Skip,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Decoded {
    pub val: Val,
    pub used: usize,
    /// The bytes use a freedom the format leaves open (bits of a full-form prefix, a char
    /// given as a longer string): a decoder may refuse them, but may not read another value.
    pub open: bool,
}

pub struct Cur<'a> {
    pub b: &'a [u8],
    pub pos: usize,
    pub open: bool,
    budget: usize,
}

impl<'a> Cur<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Cur { b, pos: 0, open: false, budget: 4_000_000 }
    }
    fn take(&mut self, n: usize) -> Result<&'a [u8], Fail> {
        if self.b.len() - self.pos < n {
            return Err(Fail::Eof);
        }
        let r = &self.b[self.pos..self.pos + n];
        self.pos += n;
        Ok(r)
    }
    fn byte(&mut self) -> Result<u8, Fail> {
        Ok(self.take(1)?[0])
    }
    pub fn varint(&mut self, width: u32) -> Result<u64, Fail> {
        let (max_l, full) = classes(width);
        let p = self.byte()?;
        let l = p.leading_ones() + 1;
        let mut w = [0u8; 8];
        if l <= max_l {
            let rest = self.take((l - 1) as usize)?;
            w[..rest.len()].copy_from_slice(rest);
            let low = 8 - l;
            Ok((u64::from_le_bytes(w) << low) | (p as u64 & ((1u64 << low) - 1)))
        } else {
            if p != full {
                self.open = true;
            }
            let rest = self.take((width / 8) as usize)?;
            w[..rest.len()].copy_from_slice(rest);
            Ok(u64::from_le_bytes(w))
        }
    }
    fn len_bytes(&mut self) -> Result<&'a [u8], Fail> {
        let n = self.varint(64)?;
        if n > (self.b.len() - self.pos) as u64 {
            return Err(Fail::Eof);
        }
        self.take(n as usize)
    }
    fn string(&mut self) -> Result<String, Fail> {
        let b = self.len_bytes()?;
        String::from_utf8(b.to_vec()).map_err(|_| Fail::Invalid)
    }
    fn spend(&mut self) -> Result<(), Fail> {
        if self.budget == 0 {
            return Err(Fail::Skip);
        }
        self.budget -= 1;
        Ok(())
    }
    fn many(&mut self, v: &[Shape]) -> Result<Val, Fail> {
        let mut out = Vec::with_capacity(v.len());
        for s in v {
            out.push(self.val(s)?);
        }
        Ok(Val::Tuple(out))
    }
    pub fn val(&mut self, s: &Shape) -> Result<Val, Fail> {
        self.spend()?;
        Ok(match s {
            Shape::Unit | Shape::UnitStruct => Val::Unit,
            Shape::Bool => match self.byte()? {
                0 => Val::Bool(false),
                1 => Val::Bool(true),
                _ => return Err(Fail::Invalid),
            },
            Shape::U8 => Val::U8(self.byte()?),
            Shape::I8 => Val::I8(self.byte()? as i8),
            Shape::U16 => Val::U16(self.varint(16)? as u16),
            Shape::U32 => Val::U32(self.varint(32)? as u32),
            Shape::U64 => Val::U64(self.varint(64)?),
            Shape::I16 => Val::I16(unzig(self.varint(16)?) as i16),
            Shape::I32 => Val::I32(unzig(self.varint(32)?) as i32),
            Shape::I64 => Val::I64(unzig(self.varint(64)?)),
            Shape::F32 => Val::F32(u32::from_le_bytes(self.take(4)?.try_into().unwrap())),
            Shape::F64 => Val::F64(u64::from_le_bytes(self.take(8)?.try_into().unwrap())),
            Shape::Char => {
                let s = self.string()?;
                let mut it = s.chars();
                let c = it.next().ok_or(Fail::Invalid)?;
                if it.next().is_some() {
                    self.open = true;
                }
                Val::Char(c)
            }
            Shape::Str => Val::Str(self.string()?),
            Shape::Bytes => Val::Bytes(self.len_bytes()?.to_vec()),
            Shape::Opt(s) => match self.byte()? {
                0 => Val::None,
                1 => Val::Some(Box::new(self.val(s)?)),
                _ => return Err(Fail::Invalid),
            },
            Shape::Seq(s) => {
                let n = self.varint(64)?;
                let mut out = Vec::new();
                for _ in 0..n {
                    out.push(self.val(s)?);
                }
                Val::Seq(out)
            }
            Shape::Tuple(v) | Shape::TupleStruct(v) | Shape::Struct(v) => self.many(v)?,
            Shape::Newtype(s) => self.val(s)?,
            Shape::Map(s) => {
                let n = self.varint(64)?;
                let mut out = Vec::new();
                for _ in 0..n {
                    let k = self.string()?;
                    out.push((k, self.val(s)?));
                }
                Val::Map(out)
            }
            Shape::Enum(vs) => {
                let i = self.varint(32)? as u32;
                let (_, var) = vs.iter().find(|(k, _)| *k == i).ok_or(Fail::Invalid)?;
                Val::Enum(
                    i,
                    Box::new(match var {
                        Variant::Unit => Val::Unit,
                        Variant::Newtype(s) => self.val(s)?,
                        Variant::Tuple(v) | Variant::Struct(v) => self.many(v)?,
                    }),
                )
            }
            Shape::BigUint => Val::BigUint(self.len_bytes()?.to_vec()),
            Shape::BigInt => Val::BigInt(self.len_bytes()?.to_vec()),
            Shape::BigDec => {
                let b = self.len_bytes()?.to_vec();
                if b.is_empty() {
                    Val::BigDec(b, 0)
                } else {
                    Val::BigDec(b, unzig(self.varint(64)?))
                }
            }
            Shape::Date => {
                let y = unzig(self.varint(32)?);
                // which of two failures is reported first does not matter: both are failures
                let o = self.varint(16)?;
                let y = y + 2000;
                if y > i32::MAX as i64 || o == 65535 {
                    return Err(Fail::Invalid);
                }
                Val::Date(y as i32, o as u16 + 1)
            }
            Shape::DateTime => {
                let t = unzig(self.varint(64)?);
                Val::DateTime(t, self.varint(32)? as u32)
            }
        })
    }
}

pub fn decode(s: &Shape, b: &[u8]) -> Result<Decoded, Fail> {
    let mut c = Cur::new(b);
    let val = c.val(s)?;
    Ok(Decoded { val, used: c.pos, open: c.open })
}

/// Like `encode`, but every varint in a randomly chosen (possibly non-minimal) form.
pub fn encode_loose(v: &Val, rng: &mut crate::rng::Rng, out: &mut Vec<u8>) {
    fn num(rng: &mut crate::rng::Rng, out: &mut Vec<u8>, v: u64, w: u32) {
        if rng.pct(60) {
            put_varint(out, v, w)
        } else {
            let f = varint_forms(v, w);
            out.extend_from_slice(rng.pick(&f));
        }
    }
    match v {
        Val::U16(x) => num(rng, out, *x as u64, 16),
        Val::U32(x) => num(rng, out, *x as u64, 32),
        Val::U64(x) => num(rng, out, *x, 64),
        Val::I16(x) => num(rng, out, zig(*x as i64), 16),
        Val::I32(x) => num(rng, out, zig(*x as i64), 32),
        Val::I64(x) => num(rng, out, zig(*x), 64),
        Val::Some(v) => {
            out.push(1);
            encode_loose(v, rng, out)
        }
        Val::Str(s) => {
            num(rng, out, s.len() as u64, 64);
            out.extend_from_slice(s.as_bytes())
        }
        Val::Char(c) => {
            let s = c.to_string();
            num(rng, out, s.len() as u64, 64);
            out.extend_from_slice(s.as_bytes())
        }
        Val::Bytes(b) | Val::BigInt(b) | Val::BigUint(b) => {
            num(rng, out, b.len() as u64, 64);
            out.extend_from_slice(b)
        }
        Val::BigDec(b, s) => {
            num(rng, out, b.len() as u64, 64);
            out.extend_from_slice(b);
            if !b.is_empty() {
                num(rng, out, zig(*s), 64)
            }
        }
        Val::Seq(v) => {
            num(rng, out, v.len() as u64, 64);
            for x in v {
                encode_loose(x, rng, out)
            }
        }
        Val::Tuple(v) => {
            for x in v {
                encode_loose(x, rng, out)
            }
        }
        Val::Map(m) => {
            num(rng, out, m.len() as u64, 64);
            for (k, x) in m {
                num(rng, out, k.len() as u64, 64);
                out.extend_from_slice(k.as_bytes());
                encode_loose(x, rng, out)
            }
        }
        Val::Enum(i, v) => {
            num(rng, out, *i as u64, 32);
            encode_loose(v, rng, out)
        }
        Val::Date(y, o) => {
            num(rng, out, zig(y.wrapping_sub(2000) as i64), 32);
            num(rng, out, (*o as u64).wrapping_sub(1) & 0xffff, 16)
        }
        Val::DateTime(t, n) => {
            num(rng, out, zig(*t), 64);
            num(rng, out, *n as u64, 32)
        }
        v => encode_into(v, out),
    }
}

// ---- headers -------------------------------------------------------------------------------

pub fn header_leaf_code(h: &Header) -> Option<u8> {
    Some(match h {
        Header::Unit => 0,
        Header::Boolean => 2,
        Header::UInt8 => 3,
        Header::UInt16 => 4,
        Header::UInt32 => 5,
        Header::UInt64 => 6,
        Header::Int8 => 8,
        Header::Int16 => 9,
        Header::Int32 => 10,
        Header::Int64 => 11,
        Header::Float32 => 13,
        Header::Float64 => 14,
        Header::BigUInt => 15,
        Header::BigInt => 16,
        Header::BigDecimal => 17,
        Header::String => 18,
        Header::Binary => 19,
        Header::Date => 25,
        Header::DateTime => 26,
        _ => return None,
    })
}

/// None: the header has no encoding (too many elements).
pub fn encode_header(h: &Header) -> Option<Vec<u8>> {
    fn go(h: &Header, out: &mut Vec<u8>) -> bool {
        let (code, many) = match h {
            Header::Optional(i) => {
                out.push(1);
                return go(i, out);
            }
            Header::Array(i) => {
                out.push(20);
                return go(i, out);
            }
            Header::Map(i) => {
                out.push(23);
                return go(i, out);
            }
            Header::Tuple(v) => (21, v),
            Header::Enum(v) => (24, v),
            leaf => {
                out.push(header_leaf_code(leaf).unwrap());
                return true;
            }
        };
        if many.len() > 65535 {
            return false;
        }
        out.push(code);
        put_varint(out, many.len() as u64, 16);
        many.iter().all(|h| go(h, out))
    }
    let mut out = Vec::new();
    go(h, &mut out).then_some(out)
}

/// Ok((header, bytes used, open)).
pub fn decode_header(b: &[u8]) -> Result<(Header, usize, bool), Fail> {
    fn go(c: &mut Cur) -> Result<Header, Fail> {
        Ok(match c.byte()? {
            0 => Header::Unit,
            1 => Header::Optional(Box::new(go(c)?)),
            2 => Header::Boolean,
            3 => Header::UInt8,
            4 => Header::UInt16,
            5 => Header::UInt32,
            6 => Header::UInt64,
            8 => Header::Int8,
            9 => Header::Int16,
            10 => Header::Int32,
            11 => Header::Int64,
            13 => Header::Float32,
            14 => Header::Float64,
            15 => Header::BigUInt,
            16 => Header::BigInt,
            17 => Header::BigDecimal,
            18 => Header::String,
            19 => Header::Binary,
            20 => Header::Array(Box::new(go(c)?)),
            n @ (21 | 24) => {
                let k = c.varint(16)?;
                let mut v = Vec::new();
                for _ in 0..k {
                    v.push(go(c)?);
                }
                if n == 21 {
                    Header::Tuple(v)
                } else {
                    Header::Enum(v)
                }
            }
            23 => Header::Map(Box::new(go(c)?)),
            25 => Header::Date,
            26 => Header::DateTime,
            _ => return Err(Fail::Invalid),
        })
    }
    let mut c = Cur::new(b);
    let h = go(&mut c)?;
    Ok((h, c.pos, c.open))
}
