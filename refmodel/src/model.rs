//! `Model`: Rust types whose shape, content and random values the reference model knows.
use crate::gen::*;
use crate::rng::Rng;
use crate::val::{Shape, Val, Variant};
use std::collections::{BTreeMap, BTreeSet, HashMap, LinkedList, VecDeque};

pub trait Model: Sized {
    fn shape() -> Shape;
    fn gen(r: &mut Rng, budget: &mut usize) -> Self;
    /// the content, as the format sees it
    fn val(&self) -> Val;
}

macro_rules! prim {
    ($($t:ty, $shape:expr, |$r:ident, $b:ident| $gen:expr, |$x:ident| $val:expr;)*) => {$(
        impl Model for $t {
            fn shape() -> Shape { $shape }
            fn gen($r: &mut Rng, $b: &mut usize) -> Self { let _ = &$b; $gen }
            fn val(&self) -> Val { let $x = self; $val }
        }
    )*};
}

fn via<T>(r: &mut Rng, b: &mut usize, s: Shape, f: impl Fn(Val) -> T) -> T {
    f(gen_val(r, &s, b))
}

prim! {
    (), Shape::Unit, |_r, b| (), |_x| Val::Unit;
    bool, Shape::Bool, |r, b| r.bool(), |x| Val::Bool(*x);
    u8, Shape::U8, |r, b| r.int(8) as u8, |x| Val::U8(*x);
    u16, Shape::U16, |r, b| r.int(16) as u16, |x| Val::U16(*x);
    u32, Shape::U32, |r, b| r.int(32) as u32, |x| Val::U32(*x);
    u64, Shape::U64, |r, b| r.int(64), |x| Val::U64(*x);
    usize, Shape::U64, |r, b| r.int(64) as usize, |x| Val::U64(*x as u64);
    i8, Shape::I8, |r, b| gen_i(r, 8) as i8, |x| Val::I8(*x);
    i16, Shape::I16, |r, b| gen_i(r, 16) as i16, |x| Val::I16(*x);
    i32, Shape::I32, |r, b| gen_i(r, 32) as i32, |x| Val::I32(*x);
    i64, Shape::I64, |r, b| gen_i(r, 64), |x| Val::I64(*x);
    isize, Shape::I64, |r, b| gen_i(r, 64) as isize, |x| Val::I64(*x as i64);
    f32, Shape::F32, |r, b| f32::from_bits(gen_f32(r)), |x| Val::F32(x.to_bits());
    f64, Shape::F64, |r, b| f64::from_bits(gen_f64(r)), |x| Val::F64(x.to_bits());
    char, Shape::Char, |r, b| via(r, b, Shape::Char, |v| match v { Val::Char(c) => c, _ => 'x' }), |x| Val::Char(*x);
    String, Shape::Str, |r, b| via(r, b, Shape::Str, |v| match v { Val::Str(c) => c, _ => String::new() }), |x| Val::Str(x.clone());
    &'static str, Shape::Str, |r, b| static_text(r), |x| Val::Str(x.to_string());
    Box<str>, Shape::Str, |r, b| String::gen(r, b).into_boxed_str(), |x| Val::Str(x.to_string());
    serde_bytes::ByteBuf, Shape::Bytes, |r, b| via(r, b, Shape::Bytes, |v| match v { Val::Bytes(c) => c.into(), _ => Vec::new().into() }), |x| Val::Bytes(x.to_vec());
    std::time::Duration, Shape::Struct(vec![Shape::U64, Shape::U32]),
        |r, b| std::time::Duration::new(r.int(63), r.below(1_000_000_000) as u32),
        |x| Val::Tuple(vec![Val::U64(x.as_secs()), Val::U32(x.subsec_nanos())]);
    std::net::Ipv4Addr, Shape::Tuple(vec![Shape::U8; 4]), |r, b| r.u32().into(),
        |x| Val::Tuple(x.octets().iter().map(|b| Val::U8(*b)).collect());
    std::net::Ipv6Addr, Shape::Tuple(vec![Shape::U8; 16]), |r, b| ((r.u64() as u128) << 64 | r.u64() as u128).into(),
        |x| Val::Tuple(x.octets().iter().map(|b| Val::U8(*b)).collect());
    std::num::NonZeroU32, Shape::U32, |r, b| std::num::NonZeroU32::new(r.int(32) as u32 | 1).unwrap(), |x| Val::U32(x.get());
}

// standard types whose serde form depends on the format being binary, or has a shape of its own
prim! {
    std::net::IpAddr, Shape::Enum(vec![(0, Variant::Newtype(<std::net::Ipv4Addr as Model>::shape())), (1, Variant::Newtype(<std::net::Ipv6Addr as Model>::shape()))]),
        |r, b| if r.bool() { std::net::IpAddr::V4(Model::gen(r, b)) } else { std::net::IpAddr::V6(Model::gen(r, b)) },
        |x| match x { std::net::IpAddr::V4(a) => Val::Enum(0, Box::new(a.val())), std::net::IpAddr::V6(a) => Val::Enum(1, Box::new(a.val())) };
    std::net::SocketAddrV4, Shape::Tuple(vec![<std::net::Ipv4Addr as Model>::shape(), Shape::U16]),
        |r, b| std::net::SocketAddrV4::new(Model::gen(r, b), Model::gen(r, b)), |x| Val::Tuple(vec![x.ip().val(), Val::U16(x.port())]);
    std::net::SocketAddrV6, Shape::Tuple(vec![<std::net::Ipv6Addr as Model>::shape(), Shape::U16]),
        |r, b| std::net::SocketAddrV6::new(Model::gen(r, b), Model::gen(r, b), 0, 0), |x| Val::Tuple(vec![x.ip().val(), Val::U16(x.port())]);
    std::net::SocketAddr, Shape::Enum(vec![(0, Variant::Newtype(<std::net::SocketAddrV4 as Model>::shape())), (1, Variant::Newtype(<std::net::SocketAddrV6 as Model>::shape()))]),
        |r, b| if r.bool() { std::net::SocketAddr::V4(Model::gen(r, b)) } else { std::net::SocketAddr::V6(Model::gen(r, b)) },
        |x| match x { std::net::SocketAddr::V4(a) => Val::Enum(0, Box::new(a.val())), std::net::SocketAddr::V6(a) => Val::Enum(1, Box::new(a.val())) };
    std::time::SystemTime, Shape::Struct(vec![Shape::U64, Shape::U32]),
        |r, b| std::time::UNIX_EPOCH + std::time::Duration::new(r.int(40), r.below(1_000_000_000) as u32),
        |x| x.duration_since(std::time::UNIX_EPOCH).unwrap().val();
    std::ffi::OsString, Shape::Enum(vec![(0, Variant::Newtype(Shape::Seq(Box::new(Shape::U8)))), (1, Variant::Newtype(Shape::Seq(Box::new(Shape::U16))))]),
        |r, b| std::os::unix::ffi::OsStringExt::from_vec(Vec::<u8>::gen(r, b)),
        |x| Val::Enum(0, Box::new(std::os::unix::ffi::OsStrExt::as_bytes(x.as_os_str()).to_vec().val()));
    std::path::PathBuf, Shape::Str, |r, b| String::gen(r, b).into(), |x| Val::Str(x.to_str().unwrap().into());
    std::ffi::CString, Shape::Bytes, |r, b| std::ffi::CString::new(serde_bytes::ByteBuf::gen(r, b).into_vec().into_iter().filter(|x| *x != 0).collect::<Vec<u8>>()).unwrap(),
        |x| Val::Bytes(x.as_bytes().to_vec());
    std::borrow::Cow<'static, str>, Shape::Str, |r, b| String::gen(r, b).into(), |x| Val::Str(x.to_string());
    std::num::NonZeroU8, Shape::U8, |r, b| std::num::NonZeroU8::new(r.int(8) as u8 | 1).unwrap(), |x| Val::U8(x.get());
    std::num::NonZeroU64, Shape::U64, |r, b| std::num::NonZeroU64::new(r.int(64) | 1).unwrap(), |x| Val::U64(x.get());
    std::num::NonZeroI16, Shape::I16, |r, b| std::num::NonZeroI16::new(gen_i(r, 16) as i16 | 1).unwrap(), |x| Val::I16(x.get());
    std::num::NonZeroI64, Shape::I64, |r, b| std::num::NonZeroI64::new(gen_i(r, 64) | 1).unwrap(), |x| Val::I64(x.get());
    std::sync::atomic::AtomicU32, Shape::U32, |r, b| u32::gen(r, b).into(), |x| Val::U32(x.load(std::sync::atomic::Ordering::Relaxed));
    std::sync::atomic::AtomicI64, Shape::I64, |r, b| i64::gen(r, b).into(), |x| Val::I64(x.load(std::sync::atomic::Ordering::Relaxed));
    std::sync::atomic::AtomicBool, Shape::Bool, |r, b| r.bool().into(), |x| Val::Bool(x.load(std::sync::atomic::Ordering::Relaxed));
}

macro_rules! around {
    ($($t:ty, |$s:ident| $shape:expr, |$r:ident, $b:ident| $gen:expr, |$x:ident| $val:expr;)*) => {$(
        impl<T: Model> Model for $t {
            fn shape() -> Shape { let $s = T::shape(); $shape }
            fn gen($r: &mut Rng, $b: &mut usize) -> Self { $gen }
            fn val(&self) -> Val { let $x = self; $val }
        }
    )*};
}

around! {
    std::num::Wrapping<T>, |s| s, |r, b| std::num::Wrapping(T::gen(r, b)), |x| x.0.val();
    std::cmp::Reverse<T>, |s| s, |r, b| std::cmp::Reverse(T::gen(r, b)), |x| x.0.val();
    std::sync::Mutex<T>, |s| s, |r, b| std::sync::Mutex::new(T::gen(r, b)), |x| x.lock().unwrap().val();
    std::sync::RwLock<T>, |s| s, |r, b| std::sync::RwLock::new(T::gen(r, b)), |x| x.read().unwrap().val();
    std::cell::RefCell<T>, |s| s, |r, b| std::cell::RefCell::new(T::gen(r, b)), |x| x.borrow().val();
    std::ops::Range<T>, |s| Shape::Struct(vec![s; 2]), |r, b| T::gen(r, b)..T::gen(r, b), |x| Val::Tuple(vec![x.start.val(), x.end.val()]);
    std::ops::RangeInclusive<T>, |s| Shape::Struct(vec![s; 2]), |r, b| T::gen(r, b)..=T::gen(r, b), |x| Val::Tuple(vec![x.start().val(), x.end().val()]);
    std::ops::RangeFrom<T>, |s| Shape::Struct(vec![s]), |r, b| T::gen(r, b).., |x| Val::Tuple(vec![x.start.val()]);
    std::ops::Bound<T>, |s| Shape::Enum(vec![(0, Variant::Unit), (1, Variant::Newtype(s.clone())), (2, Variant::Newtype(s))]),
        |r, b| match r.below(3) { 0 => std::ops::Bound::Unbounded, 1 => std::ops::Bound::Included(T::gen(r, b)), _ => std::ops::Bound::Excluded(T::gen(r, b)) },
        |x| match x {
            std::ops::Bound::Unbounded => Val::Enum(0, Box::new(Val::Unit)),
            std::ops::Bound::Included(v) => Val::Enum(1, Box::new(v.val())),
            std::ops::Bound::Excluded(v) => Val::Enum(2, Box::new(v.val())),
        };
    std::marker::PhantomData<T>, |s| { let _ = s; Shape::UnitStruct }, |r, b| { let _ = (r, b); std::marker::PhantomData }, |x| { let _ = x; Val::Unit };
}

impl<T: Model> Model for Option<T> {
    fn shape() -> Shape {
        Shape::Opt(Box::new(T::shape()))
    }
    fn gen(r: &mut Rng, b: &mut usize) -> Self {
        if r.pct(35) {
            None
        } else {
            Some(T::gen(r, b))
        }
    }
    fn val(&self) -> Val {
        match self {
            None => Val::None,
            Some(v) => Val::Some(Box::new(v.val())),
        }
    }
}

impl<T: Model> Model for Box<T> {
    fn shape() -> Shape {
        T::shape()
    }
    fn gen(r: &mut Rng, b: &mut usize) -> Self {
        Box::new(T::gen(r, b))
    }
    fn val(&self) -> Val {
        (**self).val()
    }
}

impl<T: Model> Model for std::cell::Cell<T>
where
    T: Copy,
{
    fn shape() -> Shape {
        T::shape()
    }
    fn gen(r: &mut Rng, b: &mut usize) -> Self {
        std::cell::Cell::new(T::gen(r, b))
    }
    fn val(&self) -> Val {
        self.get().val()
    }
}

impl<T: Model, E: Model> Model for Result<T, E> {
    fn shape() -> Shape {
        Shape::Enum(vec![(0, Variant::Newtype(T::shape())), (1, Variant::Newtype(E::shape()))])
    }
    fn gen(r: &mut Rng, b: &mut usize) -> Self {
        if r.bool() {
            Ok(T::gen(r, b))
        } else {
            Err(E::gen(r, b))
        }
    }
    fn val(&self) -> Val {
        match self {
            Ok(v) => Val::Enum(0, Box::new(v.val())),
            Err(v) => Val::Enum(1, Box::new(v.val())),
        }
    }
}

fn gen_items<T: Model>(r: &mut Rng, b: &mut usize) -> Vec<T> {
    let s = T::shape();
    let cost = s.min_width().max(1) * s.nodes().min(8);
    let n = gen_len(r, *b / cost);
    let mut small = 60;
    let out = (0..n)
        .map(|_| if n > 64 { T::gen(r, &mut small) } else { T::gen(r, b) })
        .collect();
    if n > 64 {
        *b = b.saturating_sub(n * cost)
    }
    out
}

macro_rules! seqs {
    ($($t:ident $(: $bound:ident)*;)*) => {$(
        impl<T: Model $(+ $bound)*> Model for $t<T> {
            fn shape() -> Shape { Shape::Seq(Box::new(T::shape())) }
            fn gen(r: &mut Rng, b: &mut usize) -> Self { gen_items::<T>(r, b).into_iter().collect() }
            fn val(&self) -> Val { Val::Seq(self.iter().map(|v| v.val()).collect()) }
        }
    )*};
}
seqs! { Vec; VecDeque; LinkedList; BTreeSet: Ord; }

impl<T: Model> Model for Box<[T]> {
    fn shape() -> Shape {
        Shape::Seq(Box::new(T::shape()))
    }
    fn gen(r: &mut Rng, b: &mut usize) -> Self {
        gen_items::<T>(r, b).into()
    }
    fn val(&self) -> Val {
        Val::Seq(self.iter().map(|v| v.val()).collect())
    }
}

impl<T: Model, const N: usize> Model for [T; N] {
    fn shape() -> Shape {
        Shape::Tuple((0..N).map(|_| T::shape()).collect())
    }
    fn gen(r: &mut Rng, b: &mut usize) -> Self {
        std::array::from_fn(|_| T::gen(r, b))
    }
    fn val(&self) -> Val {
        Val::Tuple(self.iter().map(|v| v.val()).collect())
    }
}

fn gen_key(r: &mut Rng, b: &mut usize) -> String {
    let n = gen_len(r, (*b / 4).min(300));
    *b = b.saturating_sub(n + 1);
    gen_string(r, n)
}

fn gen_map<T: Model>(r: &mut Rng, b: &mut usize) -> BTreeMap<String, T> {
    let n = gen_len(r, *b / 8);
    let mut small = 60;
    (0..n)
        .map(|i| {
            if n > 40 {
                (format!("{:x}", i), T::gen(r, &mut small))
            } else {
                (gen_key(r, b), T::gen(r, b))
            }
        })
        .collect()
}

/// text that lives for ever, from a pool
pub fn static_text(r: &mut Rng) -> &'static str {
    static POOL: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
    let pool = POOL.get_or_init(|| {
        let mut r = Rng::new(77);
        (0..600)
            .map(|i| {
                let n = if i < 300 { i } else { gen_len(&mut r, 5000) };
                &*Box::leak(gen_string(&mut r, n).into_boxed_str())
            })
            .collect()
    });
    *r.pick(pool)
}

macro_rules! maps {
    ($($k:ty, |$s:ident, $r:ident| $conv:expr;)*) => {$(
        impl<T: Model> Model for BTreeMap<$k, T> {
            fn shape() -> Shape { Shape::Map(Box::new(T::shape())) }
            fn gen(r: &mut Rng, b: &mut usize) -> Self {
                let m = gen_map::<T>(r, b);
                m.into_iter().map(|($s, v)| { let $r = &mut *r; let _ = &$r; ($conv, v) }).collect()
            }
            fn val(&self) -> Val { Val::Map(self.iter().map(|(k, v)| (k.to_string(), v.val())).collect()) }
        }
        impl<T: Model> Model for HashMap<$k, T> {
            fn shape() -> Shape { Shape::Map(Box::new(T::shape())) }
            fn gen(r: &mut Rng, b: &mut usize) -> Self { BTreeMap::<$k, T>::gen(r, b).into_iter().collect() }
            /// in the map's own iteration order, which serialization follows
            fn val(&self) -> Val { Val::Map(self.iter().map(|(k, v)| (k.to_string(), v.val())).collect()) }
        }
    )*};
}
maps! {
    String, |s, r| s;
    Box<str>, |s, r| s.into();
    std::borrow::Cow<'static, str>, |s, r| s.into();
    &'static str, |_s, r| static_text(r);
}

macro_rules! tuples {
    ($($($n:ident $i:tt),+;)*) => {$(
        impl<$($n: Model),+> Model for ($($n,)+) {
            fn shape() -> Shape { Shape::Tuple(vec![$($n::shape()),+]) }
            fn gen(r: &mut Rng, b: &mut usize) -> Self { ($($n::gen(r, b),)+) }
            fn val(&self) -> Val { Val::Tuple(vec![$(self.$i.val()),+]) }
        }
    )*};
}
tuples! {
    A 0; A 0, B 1; A 0, B 1, C 2; A 0, B 1, C 2, D 3; A 0, B 1, C 2, D 3, E 4;
    A 0, B 1, C 2, D 3, E 4, F 5; A 0, B 1, C 2, D 3, E 4, F 5, G 6;
    A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7;
    A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8;
    A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9;
    A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10;
    A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11;
    A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12;
    A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12, N 13;
    A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12, N 13, O 14;
    A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12, N 13, O 14, P 15;
}

macro_rules! wrapper {
    ($($t:ident, $shape:ident;)*) => {$(
        impl Model for dlhn::$t {
            fn shape() -> Shape { Shape::$shape }
            fn gen(r: &mut Rng, b: &mut usize) -> Self {
                let v = gen_val(r, &Shape::$shape, b);
                crate::dynamic::wrap(&v).unwrap_or_else(|e| panic!("HARNESS-WRAP {}", e))
            }
            fn val(&self) -> Val {
                crate::typed::unwrap_wrapper(self, &Shape::$shape).unwrap_or_else(|e| panic!("HARNESS-WRAP {}", e))
            }
        }
    )*};
}
wrapper! { BigUint, BigUint; BigInt, BigInt; BigDecimal, BigDec; Date, Date; DateTime, DateTime; }

/// A struct with named fields and its model.
#[macro_export]
macro_rules! model_struct {
    ($(#[$m:meta])* $name:ident { $($(#[$fm:meta])* $f:ident : $t:ty),* $(,)? }) => {
        $(#[$m])* pub struct $name { $($(#[$fm])* pub $f: $t),* }
        impl $crate::Model for $name {
            fn shape() -> $crate::Shape { $crate::Shape::Struct(vec![$(<$t as $crate::Model>::shape()),*]) }
            #[allow(unused_variables)]
            fn gen(r: &mut $crate::Rng, b: &mut usize) -> Self { $name { $($f: <$t as $crate::Model>::gen(r, b)),* } }
            fn val(&self) -> $crate::Val { $crate::Val::Tuple(vec![$($crate::Model::val(&self.$f)),*]) }
        }
    };
}
