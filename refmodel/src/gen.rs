//! Generators of shapes, contents, headers and hostile byte strings.
use crate::rng::Rng;
use crate::typed::MAX_FIELDS;
use crate::val::{Shape, Val, Variant};
use crate::wire;
use dlhn::Header;

#[derive(Clone, Copy, Debug)]
pub struct ShapeOpts {
    /// only shapes that have a header
    pub headerable: bool,
    /// sequences of elements that take no bytes
    pub zero_elems: bool,
}

pub const HEADERABLE: ShapeOpts = ShapeOpts { headerable: true, zero_elems: true };
pub const ANY: ShapeOpts = ShapeOpts { headerable: false, zero_elems: true };
pub const HOSTILE: ShapeOpts = ShapeOpts { headerable: false, zero_elems: false };
pub const HOSTILE_HEADERABLE: ShapeOpts = ShapeOpts { headerable: true, zero_elems: false };

pub fn gen_leaf(r: &mut Rng, o: ShapeOpts) -> Shape {
    match r.below(22) {
        0 => Shape::Unit,
        1 => Shape::Bool,
        2 => Shape::U8,
        3 => Shape::U16,
        4 => Shape::U32,
        5 => Shape::U64,
        6 => Shape::I8,
        7 => Shape::I16,
        8 => Shape::I32,
        9 => Shape::I64,
        10 => Shape::F32,
        11 => Shape::F64,
        12 => {
            if o.headerable {
                Shape::Str
            } else {
                Shape::Char
            }
        }
        13 | 14 => Shape::Str,
        15 => Shape::Bytes,
        16 => Shape::BigUint,
        17 => Shape::BigInt,
        18 => Shape::BigDec,
        19 => Shape::Date,
        20 => Shape::DateTime,
        _ => Shape::UnitStruct,
    }
}

/// A random shape of at most `depth` levels and about `budget` nodes.
pub fn gen_shape(r: &mut Rng, depth: usize, o: ShapeOpts) -> Shape {
    let mut budget = match r.below(10) {
        0 => 120,
        1..=3 => 30,
        _ => 10,
    };
    shape(r, depth, o, &mut budget)
}

fn arity(r: &mut Rng) -> usize {
    match r.below(60) {
        0 => 0,
        1 => *r.pick(&[16, 17, 31, 32, 64]),
        2 => *r.pick(&[126, 127, 128, 129, 130, 200, 255, 256, 300]),
        3..=9 => 1,
        10..=20 => 2,
        _ => r.range(1, 6),
    }
}

fn many(r: &mut Rng, depth: usize, o: ShapeOpts, budget: &mut usize) -> Vec<Shape> {
    let n = arity(r).min(MAX_FIELDS);
    if n > 12 {
        // wide: repeat few shapes
        let k: Vec<Shape> = (0..3).map(|_| gen_leaf(r, o)).collect();
        return (0..n).map(|_| r.pick(&k).clone()).collect();
    }
    (0..n).map(|_| shape(r, depth, o, budget)).collect()
}

fn shape(r: &mut Rng, depth: usize, o: ShapeOpts, budget: &mut usize) -> Shape {
    if depth == 0 || *budget == 0 {
        return gen_leaf(r, o);
    }
    *budget -= 1;
    match r.below(20) {
        0 | 1 => Shape::Opt(Box::new(shape(r, depth - 1, o, budget))),
        2..=4 => {
            let mut s = shape(r, depth - 1, o, budget);
            while !o.zero_elems && s.min_width() == 0 {
                s = gen_leaf(r, o);
            }
            Shape::Seq(Box::new(s))
        }
        5 => Shape::Tuple(many(r, depth - 1, o, budget)),
        6 => Shape::TupleStruct(many(r, depth - 1, o, budget)),
        7 | 8 => Shape::Struct(many(r, depth - 1, o, budget)),
        9 => Shape::Newtype(Box::new(shape(r, depth - 1, o, budget))),
        10 | 11 => Shape::Map(Box::new(shape(r, depth - 1, o, budget))),
        12..=14 => {
            let n = match r.below(24) {
                0 => 0,
                1 => *r.pick(&[127, 128, 129, 200, 256, 257, 300]),
                _ => r.range(1, 5),
            };
            let mut idx = 0u32;
            let mut vs: Vec<(u32, Variant)> = Vec::new();
            for _ in 0..n {
                let var = if n > 12 {
                    match r.below(3) {
                        0 => Variant::Newtype(gen_leaf(r, o)),
                        1 => Variant::Tuple(vec![gen_leaf(r, o), gen_leaf(r, o)]),
                        _ => Variant::Unit,
                    }
                } else {
                    match r.below(5) {
                        0 => Variant::Unit,
                        1 => Variant::Newtype(shape(r, depth - 1, o, budget)),
                        2 => Variant::Tuple(many(r, depth - 1, o, budget)),
                        3 => Variant::Struct(many(r, depth - 1, o, budget)),
                        _ => Variant::Unit,
                    }
                };
                if !o.headerable && r.pct(8) {
                    let bits = r.range(1, 32) as u32;
                    idx = idx.saturating_add(r.int(bits) as u32);
                }
                if vs.last().is_some_and(|(k, _)| *k == idx) {
                    break;
                }
                vs.push((idx, var));
                idx = idx.saturating_add(1);
            }
            Shape::Enum(vs)
        }
        _ => gen_leaf(r, o),
    }
}

/// Boundary lengths of the format and of buffers a codec is likely to use.
pub const LENS: &[usize] = &[
    0, 1, 2, 63, 64, 65, 126, 127, 128, 129, 130, 191, 192, 254, 255, 256, 257, 511, 512, 513, 1023, 1024,
    1025, 2047, 2048, 2049, 4094, 4095, 4096, 4097, 4098, 8191, 8192, 8193, 12287, 12288, 12289, 16382,
    16383, 16384, 16385, 20000, 32767, 32768, 65534, 65535, 65536, 65537, 100000,
];
pub const HUGE_LENS: &[usize] = &[131071, 131072, 262144, 1 << 20, (1 << 21) - 1, 1 << 21, (1 << 21) + 1];

/// A length no larger than `budget` (which is the byte budget left for the value).
pub fn gen_len(r: &mut Rng, budget: usize) -> usize {
    let n = match r.below(20) {
        0..=9 => r.below(9),
        10..=12 => r.below(40),
        13 => r.below(300),
        14 => r.range(100, 140),
        15..=18 => *r.pick(LENS),
        _ => r.below(5000),
    };
    if n <= budget {
        n
    } else {
        let ok: Vec<usize> = LENS.iter().copied().filter(|x| *x <= budget).collect();
        *r.pick(&ok)
    }
}

/// Text that programs treat specially somewhere.
const SPECIAL: &[&str] = &[
    "\u{feff}", " ", "\t", "\r\n", "\r", "\n", "\0", "\u{1b}", "e\u{301}", "\u{e9}", "\u{200d}", "\u{200b}", "\u{a0}", "\u{2028}", "\u{fffe}",
    "\u{fdd0}", "\u{fffd}", "\u{d7ff}", "\u{e000}", "\u{130}", "\u{df}", "A", "a", "\"", "\\", "\\u0041", "%41", "&amp;", "'", "$", "{}", "null", "true",
    "0", "-1", "\u{1f468}\u{200d}\u{1f469}", "\u{ac00}", "\u{1112}\u{1161}", "\u{7f}", "\u{85}", "\u{9f}",
];

pub fn gen_string(r: &mut Rng, n: usize) -> String {
    // exactly n bytes of UTF-8
    let mode = r.below(9);
    if mode >= 7 {
        let mut s = String::with_capacity(n);
        let pad = *r.pick(&[' ', '\0', 'x', '\n', '/']);
        let some = r.range(1, 6);
        if mode == 8 {
            // the special at the end
            let e = *r.pick(SPECIAL);
            if e.len() <= n {
                while s.len() < n - e.len() {
                    s.push('x')
                }
                s.push_str(e);
            }
        }
        for _ in 0..some {
            let e = *r.pick(SPECIAL);
            if s.len() + e.len() <= n {
                s.push_str(e)
            }
        }
        while s.len() < n {
            s.push(pad)
        }
        return s;
    }
    if mode == 6 && n >= 4 {
        // ASCII run, then one wide char across a boundary, then ASCII
        let w = *r.pick(&['é', '€', '𝄞', '\u{10ffff}', '\u{7ff}', '\u{800}', '\u{ffff}']);
        let k = r.below(n - w.len_utf8() + 1);
        let mut s = "a".repeat(k);
        s.push(w);
        s.push_str(&"b".repeat(n - s.len()));
        return s;
    }
    let mut s = String::with_capacity(n);
    while s.len() < n {
        let left = n - s.len();
        let c = match mode {
            0 => 'x',
            1 => (b' ' + r.below(95) as u8) as char,
            2 => {
                let v: u32 = r.int(16) as u32;
                char::from_u32(v).unwrap_or('\u{d7ff}')
            }
            3 => *r.pick(&['\0', '\n', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{fffd}', '\u{10000}', '\u{10ffff}']),
            4 => '€',
            5 => char::from_u32(r.below(0x110000) as u32).unwrap_or('\u{e000}'),
            _ => (r.below(128) as u8) as char,
        };
        if c.len_utf8() <= left {
            s.push(c)
        } else {
            s.push('y')
        }
    }
    s
}

pub fn gen_f32(r: &mut Rng) -> u32 {
    match r.below(6) {
        // subnormal, integral, decimal, and a double's
        4 => r.int(23) as u32 | (r.u32() & 0x8000_0000),
        5 => match r.below(3) {
            0 => (gen_i(r, 32) as f32).to_bits(),
            1 => (gen_i(r, 16) as f32 / 10.0).to_bits(),
            _ => (f64::from_bits(r.u64()) as f32).to_bits(),
        },
        0 => *r.pick(&[0, 0x8000_0000, 0x3f80_0000, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0x7f80_0001, 0xffff_ffff, 1, 0x007f_ffff, 0x7f7f_ffff]),
        _ => r.u32(),
    }
}

pub fn gen_f64(r: &mut Rng) -> u64 {
    match r.below(6) {
        4 => r.int(52) | (r.u64() & 1 << 63),
        5 => match r.below(3) {
            0 => (gen_i(r, 64) as f64).to_bits(),
            1 => (gen_i(r, 24) as f64 / 10.0).to_bits(),
            // those that are also floats of 32 bits
            _ => (f32::from_bits(r.u32() & 0xff7f_ffff) as f64).to_bits(),
        },
        0 => *r.pick(&[0, 1 << 63, 0x3ff0_0000_0000_0000, 0x7ff0_0000_0000_0000, 0xfff0_0000_0000_0000, 0x7ff8_0000_0000_0000, 0x7ff0_0000_0000_0001, u64::MAX, 1, 0x7fef_ffff_ffff_ffff]),
        _ => r.u64(),
    }
}

pub fn gen_i(r: &mut Rng, bits: u32) -> i64 {
    let v = r.int(bits - 1) as i64;
    if r.bool() {
        v
    } else {
        -v - 1
    }
}

/// Canonical bytes of a big unsigned integer (never empty except, rarely, raw).
pub fn gen_big_bytes(r: &mut Rng, signed: bool, budget: usize) -> Vec<u8> {
    let n = match r.below(10) {
        0 => gen_len(r, budget.min(2000)),
        1 | 2 => 1,
        _ => r.range(1, 24.min(budget.max(1))),
    };
    let mut b = r.bytes(n);
    if let Some(l) = b.last_mut() {
        match r.below(5) {
            0 => *l = 0x7f,
            1 => *l = 0x80,
            2 => *l = 0xff,
            3 => *l = 1,
            _ => {}
        }
    }
    if r.pct(85) {
        trim_big(&mut b, signed)
    }
    b
}

pub fn trim_big(b: &mut Vec<u8>, signed: bool) {
    while let Some(&l) = b.last() {
        let redundant = if signed {
            b.len() >= 2 && ((l == 0 && b[b.len() - 2] < 0x80) || (l == 0xff && b[b.len() - 2] >= 0x80)) || (b.len() == 1 && l == 0)
        } else {
            l == 0
        };
        if redundant {
            b.pop();
        } else {
            break;
        }
    }
}

pub fn gen_val(r: &mut Rng, s: &Shape, budget: &mut usize) -> Val {
    macro_rules! spend {
        ($n:expr) => {
            *budget = budget.saturating_sub($n)
        };
    }
    spend!(1);
    match s {
        Shape::Unit | Shape::UnitStruct => Val::Unit,
        Shape::Bool => Val::Bool(r.bool()),
        Shape::U8 => Val::U8(r.int(8) as u8),
        Shape::U16 => Val::U16(r.int(16) as u16),
        Shape::U32 => Val::U32(r.int(32) as u32),
        Shape::U64 => Val::U64(r.int(64)),
        Shape::I8 => Val::I8(gen_i(r, 8) as i8),
        Shape::I16 => Val::I16(gen_i(r, 16) as i16),
        Shape::I32 => Val::I32(gen_i(r, 32) as i32),
        Shape::I64 => Val::I64(gen_i(r, 64)),
        Shape::F32 => Val::F32(gen_f32(r)),
        Shape::F64 => Val::F64(gen_f64(r)),
        Shape::Char => {
            let n = r.range(1, 4);
            let c = match r.below(3) {
                0 => gen_string(r, n).chars().next().unwrap(),
                1 => *r.pick(&['\0', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{10ffff}']),
                _ => char::from_u32(r.below(0x110000) as u32).unwrap_or('ß'),
            };
            Val::Char(c)
        }
        Shape::Str => {
            let n = gen_len(r, *budget);
            spend!(n);
            Val::Str(gen_string(r, n))
        }
        Shape::Bytes => {
            let n = gen_len(r, *budget);
            spend!(n);
            Val::Bytes(match r.below(8) {
                0 => vec![0; n],
                1 => vec![0xff; n],
                2 => vec![r.u8(); n],
                3 => gen_string(r, n).into_bytes(),
                4 => (0..n).map(|i| i as u8).collect(),
                _ => r.bytes(n),
            })
        }
        Shape::Opt(s) => {
            if r.pct(35) {
                Val::None
            } else {
                Val::Some(Box::new(gen_val(r, s, budget)))
            }
        }
        Shape::Seq(s) => {
            let cost = s.min_width().max(1) * s.nodes().min(8);
            let n = gen_len(r, *budget / cost);
            if n > 64 {
                // long sequences: draw elements from a small pool, so that generation stays cheap
                let mut small = 40;
                let pool: Vec<Val> = (0..6).map(|_| gen_val(r, s, &mut small)).collect();
                spend!(n * cost);
                return Val::Seq((0..n).map(|_| r.pick(&pool).clone()).collect());
            }
            let same = r.pct(12);
            let mut out: Vec<Val> = Vec::with_capacity(n);
            for i in 0..n {
                if same && i > 0 {
                    out.push(out[0].clone());
                } else {
                    out.push(gen_val(r, s, budget));
                }
            }
            Val::Seq(out)
        }
        Shape::Tuple(v) | Shape::TupleStruct(v) | Shape::Struct(v) => {
            Val::Tuple(v.iter().map(|s| gen_val(r, s, budget)).collect())
        }
        Shape::Newtype(s) => gen_val(r, s, budget),
        Shape::Map(s) => {
            let cost = 4 + s.min_width();
            let n = gen_len(r, *budget / (2 * cost));
            let mut m = std::collections::BTreeMap::new();
            let mut small = 60;
            for i in 0..n {
                let k = if n > 40 {
                    format!("{:x}", i)
                } else {
                    let l = gen_len(r, (*budget / 4).min(300));
                    gen_string(r, l)
                };
                spend!(k.len() + 1);
                let v = if n > 40 { gen_val(r, s, &mut small) } else { gen_val(r, s, budget) };
                m.insert(k, v);
            }
            let mut v: Vec<(String, Val)> = m.into_iter().collect();
            if r.bool() {
                r.shuffle(&mut v);
            }
            Val::Map(v)
        }
        Shape::Enum(vs) => {
            if vs.is_empty() {
                // no value exists: callers avoid it (see `inhabited`)
                return Val::Enum(0, Box::new(Val::Unit));
            }
            let k = match r.below(4) {
                0 => vs.len() - 1,
                1 => *r.pick(&[127usize, 128, 255, 256]) % vs.len(),
                _ => r.below(vs.len()),
            };
            let (i, var) = &vs[k];
            Val::Enum(
                *i,
                Box::new(match var {
                    Variant::Unit => Val::Unit,
                    Variant::Newtype(s) => gen_val(r, s, budget),
                    Variant::Tuple(v) | Variant::Struct(v) => {
                        Val::Tuple(v.iter().map(|s| gen_val(r, s, budget)).collect())
                    }
                }),
            )
        }
        Shape::BigUint => {
            let b = gen_big_bytes(r, false, *budget);
            spend!(b.len());
            Val::BigUint(b)
        }
        Shape::BigInt => {
            let b = gen_big_bytes(r, true, *budget);
            spend!(b.len());
            Val::BigInt(b)
        }
        Shape::BigDec => {
            let b = gen_big_bytes(r, true, *budget);
            spend!(b.len());
            let s = if b.is_empty() { 0 } else { gen_i(r, 64) };
            Val::BigDec(b, s)
        }
        Shape::Date => {
            let y = match r.below(3) {
                0 => gen_i(r, 32).max(i32::MIN as i64 + 2000) as i32,
                1 => 2000 + gen_i(r, 12) as i32,
                _ => r.range(0, 19998) as i32 - 9999,
            };
            let o = match r.below(3) {
                0 => 1 + r.int(16).min(65534) as u16,
                _ => r.range(1, 366) as u16,
            };
            Val::Date(y, o)
        }
        Shape::DateTime => Val::DateTime(
            gen_i(r, 64),
            if r.bool() { r.int(32) as u32 } else { r.below(1_000_000_000) as u32 },
        ),
    }
}

/// Does the shape have a value at all? (an enum without variants has none)
pub fn inhabited(s: &Shape) -> bool {
    match s {
        Shape::Enum(v) => {
            !v.is_empty()
                && v.iter().all(|(_, v)| match v {
                    Variant::Unit => true,
                    Variant::Newtype(s) => inhabited(s),
                    Variant::Tuple(v) | Variant::Struct(v) => v.iter().all(inhabited),
                })
        }
        Shape::Opt(s) | Shape::Seq(s) | Shape::Map(s) | Shape::Newtype(s) => inhabited(s),
        Shape::Tuple(v) | Shape::TupleStruct(v) | Shape::Struct(v) => v.iter().all(inhabited),
        _ => true,
    }
}

pub fn gen_inhabited(r: &mut Rng, depth: usize, o: ShapeOpts) -> Shape {
    loop {
        let s = gen_shape(r, depth, o);
        if inhabited(&s) {
            return s;
        }
    }
}

// ---- hostile bytes -------------------------------------------------------------------------

/// Malformed and half-malformed inputs for a shape.
pub fn gen_hostile(r: &mut Rng, s: &Shape, max: usize) -> Vec<u8> {
    let mut budget = match r.below(6) {
        0 => max,
        1 => 1000.min(max),
        _ => 120.min(max),
    };
    let base = |r: &mut Rng, budget: &mut usize| -> Vec<u8> {
        if inhabited(s) {
            let v = gen_val(r, s, budget);
            if r.pct(70) {
                wire::encode(&v)
            } else {
                let mut out = Vec::new();
                wire::encode_loose(&v, r, &mut out);
                out
            }
        } else {
            let n = r.below(40);
            r.bytes(n)
        }
    };
    let mut b = base(r, &mut budget);
    match r.below(12) {
        // a valid encoding followed by anything
        0 => {
            let n = r.below(20);
            b.extend(r.bytes(n));
            return b;
        }
        // pure noise, biased to small and to extreme bytes
        1 => {
            let n = r.below(64);
            return (0..n)
                .map(|_| match r.below(4) {
                    0 => *r.pick(&[0, 1, 2, 0x7f, 0x80, 0xbf, 0xc0, 0xef, 0xf0, 0xf7, 0xfe, 0xff]),
                    1 => r.below(4) as u8,
                    _ => r.u8(),
                })
                .collect();
        }
        // truncation
        2 => {
            if !b.is_empty() {
                let n = r.below(b.len());
                b.truncate(n);
            }
            return b;
        }
        // structured noise
        3 => {
            let mut b = Vec::new();
            noise_for(r, s, &mut b, 200);
            return b;
        }
        _ => {}
    }
    // mutations
    let n = 1 + r.below(3);
    for _ in 0..n {
        if b.is_empty() {
            b.push(r.u8());
            continue;
        }
        let head = b.len().min(64);
        let i = if r.bool() { r.below(b.len()) } else { r.below(head) };
        match r.below(9) {
            0 => b[i] ^= 1 << r.below(8),
            1 => b[i] = r.u8(),
            2 => b[i] = *r.pick(&[0, 1, 2, 0x7f, 0x80, 0xc0, 0xf0, 0xfe, 0xff]),
            3 => {
                b.remove(i);
            }
            4 => b.insert(i, *r.pick(&[0, 1, 2, 0x7f, 0x80, 0xc0, 0xf0, 0xfe, 0xff])),
            // an inflated length in place of a byte
            5 | 6 => {
                let v = huge(r);
                let mut f = Vec::new();
                wire::put_varint(&mut f, v, 64);
                b.splice(i..i + 1, f);
            }
            7 => {
                let j = r.below(b.len());
                b.swap(i, j);
            }
            _ => {
                let n = r.below(8).min(b.len() - i);
                let dup = b[i..i + n].to_vec();
                b.splice(i..i, dup);
            }
        }
    }
    b
}

pub fn huge(r: &mut Rng) -> u64 {
    match r.below(6) {
        0 => u64::MAX - r.below(3) as u64,
        1 => i64::MAX as u64 + r.below(3) as u64,
        2 => u32::MAX as u64 + r.below(3) as u64,
        3 => 1 << r.range(7, 63),
        4 => (1u64 << r.range(20, 62)) + r.u64() % 1000,
        _ => r.int(64),
    }
}

/// Bytes that follow the shape but put hostile values at the leaves.
fn noise_for(r: &mut Rng, s: &Shape, out: &mut Vec<u8>, limit: usize) {
    if out.len() > limit {
        return;
    }
    let form = |r: &mut Rng, out: &mut Vec<u8>, v: u64, w: u32| {
        let f = wire::varint_forms(v & if w == 64 { u64::MAX } else { (1 << w) - 1 }, w);
        let mut b = r.pick(&f).clone();
        if r.pct(5) {
            b[0] |= r.u8() & 0x3f;
        }
        out.extend(b)
    };
    match s {
        Shape::Unit | Shape::UnitStruct => {}
        Shape::Bool => out.push(*r.pick(&[0, 1, 1, 0, 2, 0x80, 0xff])),
        Shape::U8 | Shape::I8 => out.push(r.u8()),
        Shape::U16 | Shape::I16 => {
            let v = r.int(16);
            form(r, out, v, 16)
        }
        Shape::U32 | Shape::I32 => {
            let v = r.int(32);
            form(r, out, v, 32)
        }
        Shape::U64 | Shape::I64 => {
            let v = r.int(64);
            form(r, out, v, 64)
        }
        Shape::F32 => out.extend(r.bytes(4)),
        Shape::F64 => out.extend(r.bytes(8)),
        Shape::Str | Shape::Char | Shape::Bytes | Shape::BigUint | Shape::BigInt | Shape::BigDec => {
            let n = match r.below(8) {
                0 => huge(r),
                1 => r.range(120, 140) as u64,
                _ => r.below(12) as u64,
            };
            form(r, out, n, 64);
            let have = if r.pct(85) { n.min(300) as usize } else { r.below(200) };
            if r.bool() {
                out.extend(gen_string(r, have).into_bytes())
            } else {
                let b: Vec<u8> = (0..have)
                    .map(|_| *r.pick(&[b'a', b'z', 0xc3, 0xa9, 0xe2, 0x82, 0xac, 0xf0, 0x9f, 0x80, 0xed, 0xa0, 0xc0, 0xff]))
                    .collect();
                out.extend(b)
            }
            if matches!(s, Shape::BigDec) {
                let v = r.int(64);
                form(r, out, v, 64)
            }
        }
        Shape::Opt(s) => {
            let t = *r.pick(&[0u8, 1, 1, 1, 2, 0xff]);
            out.push(t);
            if t == 1 {
                noise_for(r, s, out, limit)
            }
        }
        Shape::Seq(s) => {
            let n = if r.pct(20) { huge(r) } else { r.below(6) as u64 };
            form(r, out, n, 64);
            for _ in 0..n.min(6) {
                noise_for(r, s, out, limit)
            }
        }
        Shape::Map(s) => {
            let n = if r.pct(20) { huge(r) } else { r.below(6) as u64 };
            form(r, out, n, 64);
            for _ in 0..n.min(6) {
                noise_for(r, &Shape::Str, out, limit);
                noise_for(r, s, out, limit)
            }
        }
        Shape::Tuple(v) | Shape::TupleStruct(v) | Shape::Struct(v) => {
            for s in v {
                noise_for(r, s, out, limit)
            }
        }
        Shape::Newtype(s) => noise_for(r, s, out, limit),
        Shape::Enum(vs) => {
            let n = vs.len() as u64;
            let i = match r.below(6) {
                0 => n + r.below(3) as u64,
                1 => r.int(32),
                2 if n > 0 => (r.below(n as usize) as u64) | (1 << r.range(8, 31)),
                _ if n > 0 => vs[r.below(vs.len())].0 as u64,
                _ => 0,
            };
            form(r, out, i, 32);
            if let Some((_, var)) = vs.iter().find(|(k, _)| *k as u64 == i) {
                match var {
                    Variant::Unit => {}
                    Variant::Newtype(s) => noise_for(r, s, out, limit),
                    Variant::Tuple(v) | Variant::Struct(v) => {
                        for s in v {
                            noise_for(r, s, out, limit)
                        }
                    }
                }
            }
        }
        Shape::Date => {
            let v = match r.below(3) {
                0 => r.int(32),
                1 => u32::MAX as u64 - r.below(5000) as u64,
                _ => wire::zig(r.range(0, 30000) as i64 - 15000),
            };
            form(r, out, v, 32);
            let v = match r.below(3) {
                0 => r.int(16),
                1 => r.range(355, 370) as u64,
                _ => r.below(400) as u64,
            };
            form(r, out, v, 16)
        }
        Shape::DateTime => {
            let v = r.int(64);
            form(r, out, v, 64);
            let v = r.int(32);
            form(r, out, v, 32)
        }
    }
}

// ---- headers -------------------------------------------------------------------------------

pub fn gen_header(r: &mut Rng, depth: usize) -> Header {
    let mut budget = match r.below(8) {
        0 => 3000,
        1 | 2 => 200,
        _ => 25,
    };
    header(r, depth, &mut budget)
}

pub fn leaf_header(r: &mut Rng) -> Header {
    match r.below(19) {
        0 => Header::Unit,
        1 => Header::Boolean,
        2 => Header::UInt8,
        3 => Header::UInt16,
        4 => Header::UInt32,
        5 => Header::UInt64,
        6 => Header::Int8,
        7 => Header::Int16,
        8 => Header::Int32,
        9 => Header::Int64,
        10 => Header::Float32,
        11 => Header::Float64,
        12 => Header::BigUInt,
        13 => Header::BigInt,
        14 => Header::BigDecimal,
        15 => Header::String,
        16 => Header::Binary,
        17 => Header::Date,
        _ => Header::DateTime,
    }
}

fn header(r: &mut Rng, depth: usize, budget: &mut usize) -> Header {
    if depth == 0 || *budget == 0 {
        return leaf_header(r);
    }
    *budget -= 1;
    let many = |r: &mut Rng, budget: &mut usize| {
        let n = match r.below(20) {
            0 => *r.pick(&[0usize, 126, 127, 128, 129, 255, 256, 300]),
            1 => *r.pick(&[1000usize, 2000]),
            _ => r.below(7),
        };
        if n > 20 {
            return (0..n).map(|_| leaf_header(r)).collect::<Vec<_>>();
        }
        (0..n).map(|_| header(r, depth - 1, budget)).collect()
    };
    match r.below(10) {
        0 | 1 => Header::Tuple(many(r, budget)),
        2 | 3 => Header::Enum(many(r, budget)),
        4 => Header::Optional(Box::new(header(r, depth - 1, budget))),
        5 => Header::Array(Box::new(header(r, depth - 1, budget))),
        6 => Header::Map(Box::new(header(r, depth - 1, budget))),
        _ => leaf_header(r),
    }
}
