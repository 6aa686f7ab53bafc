//! Glue between the generated types, the reference model's values and deku.

use crate::io::Io;
use crate::model::{ErrC, Val};
use deku::ctx::{Endian, Order};
use deku::reader::Reader;
use deku::writer::Writer;
use deku::{DekuContainerRead, DekuContainerWrite, DekuError};
use std::collections::{HashMap, HashSet};
use std::hash::Hash;

pub trait ToVal {
    fn to_val(&self) -> Val;
}
pub trait FromVal {
    fn from_val(v: &Val) -> Self;
}

macro_rules! ints {
    ($($t:ty),*; $($s:ty),*) => {
        $(impl ToVal for $t { fn to_val(&self) -> Val { Val::U(*self as u128) } }
          impl FromVal for $t { fn from_val(v: &Val) -> Self { match v { Val::U(u) => *u as $t, Val::I(i) => *i as $t, _ => panic!("{v:?}") } } })*
        $(impl ToVal for $s { fn to_val(&self) -> Val { Val::I(*self as i128) } }
          impl FromVal for $s { fn from_val(v: &Val) -> Self { match v { Val::U(u) => *u as $s, Val::I(i) => *i as $s, _ => panic!("{v:?}") } } })*
    };
}
ints!(u8, u16, u32, u64, u128, usize; i8, i16, i32, i64, i128, isize);
macro_rules! nzs {
    ($($n:ty, $t:ty, $v:ident, $w:ty);*) => {
        $(impl ToVal for $n { fn to_val(&self) -> Val { Val::$v(self.get() as $w) } }
          impl FromVal for $n { fn from_val(v: &Val) -> Self { <$n>::new(<$t>::from_val(v)).expect("nonzero") } })*
    };
}
use core::num::*;
nzs!(NonZeroU8, u8, U, u128; NonZeroU16, u16, U, u128; NonZeroU32, u32, U, u128; NonZeroU64, u64, U, u128;
     NonZeroI8, i8, I, i128; NonZeroI16, i16, I, i128; NonZeroI32, i32, I, i128; NonZeroI64, i64, I, i128;
     NonZeroU128, u128, U, u128; NonZeroI128, i128, I, i128);

impl ToVal for bool {
    fn to_val(&self) -> Val {
        Val::B(*self)
    }
}
impl FromVal for bool {
    fn from_val(v: &Val) -> Self {
        matches!(v, Val::B(true))
    }
}
impl ToVal for f32 {
    fn to_val(&self) -> Val {
        Val::F(self.to_bits() as u64)
    }
}
impl FromVal for f32 {
    fn from_val(v: &Val) -> Self {
        let Val::F(b) = v else { panic!() };
        f32::from_bits(*b as u32)
    }
}
impl ToVal for f64 {
    fn to_val(&self) -> Val {
        Val::F(self.to_bits())
    }
}
impl FromVal for f64 {
    fn from_val(v: &Val) -> Self {
        let Val::F(b) = v else { panic!() };
        f64::from_bits(*b)
    }
}
impl ToVal for core::net::Ipv4Addr {
    fn to_val(&self) -> Val {
        Val::U(u32::from(*self) as u128)
    }
}
impl FromVal for core::net::Ipv4Addr {
    fn from_val(v: &Val) -> Self {
        u32::from_val(v).into()
    }
}
impl ToVal for core::net::Ipv6Addr {
    fn to_val(&self) -> Val {
        Val::U(u128::from(*self))
    }
}
impl FromVal for core::net::Ipv6Addr {
    fn from_val(v: &Val) -> Self {
        u128::from_val(v).into()
    }
}
impl ToVal for std::ffi::CString {
    fn to_val(&self) -> Val {
        Val::Y(self.as_bytes().to_vec())
    }
}
impl FromVal for std::ffi::CString {
    fn from_val(v: &Val) -> Self {
        let Val::Y(b) = v else { panic!() };
        std::ffi::CString::new(b.clone()).unwrap()
    }
}
impl<T: ToVal> ToVal for Vec<T> {
    fn to_val(&self) -> Val {
        Val::L(self.iter().map(|x| x.to_val()).collect())
    }
}
impl<T: FromVal> FromVal for Vec<T> {
    fn from_val(v: &Val) -> Self {
        let Val::L(x) = v else { panic!("{v:?}") };
        x.iter().map(T::from_val).collect()
    }
}
impl<T: ToVal, const N: usize> ToVal for [T; N] {
    fn to_val(&self) -> Val {
        Val::L(self.iter().map(|x| x.to_val()).collect())
    }
}
impl<T: FromVal, const N: usize> FromVal for [T; N] {
    fn from_val(v: &Val) -> Self {
        let Val::L(x) = v else { panic!("{v:?}") };
        assert_eq!(x.len(), N);
        std::array::from_fn(|i| T::from_val(&x[i]))
    }
}
impl<T: ToVal> ToVal for Box<T> {
    fn to_val(&self) -> Val {
        (**self).to_val()
    }
}
impl<T: FromVal> FromVal for Box<T> {
    fn from_val(v: &Val) -> Self {
        Box::new(T::from_val(v))
    }
}
impl<T: ToVal> ToVal for Box<[T]> {
    fn to_val(&self) -> Val {
        Val::L(self.iter().map(|x| x.to_val()).collect())
    }
}
impl<T: FromVal> FromVal for Box<[T]> {
    fn from_val(v: &Val) -> Self {
        Vec::<T>::from_val(v).into_boxed_slice()
    }
}
impl<T: ToVal> ToVal for std::sync::Arc<[T]> {
    fn to_val(&self) -> Val {
        Val::L(self.iter().map(|x| x.to_val()).collect())
    }
}
impl<T: FromVal> FromVal for std::sync::Arc<[T]> {
    fn from_val(v: &Val) -> Self {
        Vec::<T>::from_val(v).into()
    }
}
impl<T: ToVal> ToVal for std::sync::Arc<T> {
    fn to_val(&self) -> Val {
        (**self).to_val()
    }
}
impl<T: FromVal> FromVal for std::sync::Arc<T> {
    fn from_val(v: &Val) -> Self {
        std::sync::Arc::new(T::from_val(v))
    }
}
impl<T: ToVal + Clone + 'static> ToVal for std::borrow::Cow<'static, T> {
    fn to_val(&self) -> Val {
        (**self).to_val()
    }
}
impl<T: FromVal + Clone + 'static> FromVal for std::borrow::Cow<'static, T> {
    fn from_val(v: &Val) -> Self {
        std::borrow::Cow::Owned(T::from_val(v))
    }
}
impl<T: ToVal> ToVal for Option<T> {
    fn to_val(&self) -> Val {
        match self {
            None => Val::N,
            Some(x) => Val::S(Box::new(x.to_val())),
        }
    }
}
impl<T: FromVal> FromVal for Option<T> {
    fn from_val(v: &Val) -> Self {
        match v {
            Val::N => None,
            Val::S(x) => Some(T::from_val(x)),
            _ => panic!(),
        }
    }
}
impl<K: ToVal, V: ToVal, S> ToVal for HashMap<K, V, S> {
    fn to_val(&self) -> Val {
        let mut v: Vec<(Val, Val)> = self.iter().map(|(a, b)| (a.to_val(), b.to_val())).collect();
        v.sort();
        Val::M(v)
    }
}
impl<K: FromVal + Eq + Hash, V: FromVal, S: std::hash::BuildHasher + Default> FromVal for HashMap<K, V, S> {
    fn from_val(v: &Val) -> Self {
        let Val::M(x) = v else { panic!() };
        x.iter().map(|(a, b)| (K::from_val(a), V::from_val(b))).collect()
    }
}
impl<K: ToVal, S> ToVal for HashSet<K, S> {
    fn to_val(&self) -> Val {
        let mut v: Vec<Val> = self.iter().map(|a| a.to_val()).collect();
        v.sort();
        Val::Set(v)
    }
}
impl<K: FromVal + Eq + Hash, S: std::hash::BuildHasher + Default> FromVal for HashSet<K, S> {
    fn from_val(v: &Val) -> Self {
        let Val::Set(x) = v else { panic!() };
        x.iter().map(K::from_val).collect()
    }
}
macro_rules! tups {
    ($($($n:ident $i:tt),+);*) => { $(
        impl<$($n: ToVal),+> ToVal for ($($n,)+) { fn to_val(&self) -> Val { Val::L(vec![$(self.$i.to_val()),+]) } }
        impl<$($n: FromVal),+> FromVal for ($($n,)+) { fn from_val(v: &Val) -> Self { let Val::L(x) = v else { panic!() }; ($($n::from_val(&x[$i]),)+) } }
    )* };
}
tups!(A 0; A 0, B 1; A 0, B 1, C 2; A 0, B 1, C 2, D 3; A 0, B 1, C 2, D 3, E 4; A 0, B 1, C 2, D 3, E 4, F 5; A 0, B 1, C 2, D 3, E 4, F 5, G 6);
impl ToVal for () {
    fn to_val(&self) -> Val {
        Val::L(vec![])
    }
}
impl FromVal for () {
    fn from_val(_: &Val) -> Self {}
}

#[derive(Clone, Copy, Debug)]
pub struct Ctx {
    pub endian: Endian,
    pub order: Order,
    pub n: u8,
}

/// `to_bits` and conversions to bit vectors exist
pub const HAS_BITVEC: bool = cfg!(all(feature = "bits", feature = "alloc"));
pub const HAS_ALLOC: bool = cfg!(feature = "alloc");

/// what the library has to offer besides the traits, as far as it is built in
#[cfg(feature = "alloc")]
pub trait HasVec: Sized {
    fn vec(self) -> Result<Vec<u8>, DekuError>;
}
#[cfg(feature = "alloc")]
impl<T> HasVec for T
where
    Vec<u8>: TryFrom<T, Error = DekuError>,
{
    fn vec(self) -> Result<Vec<u8>, DekuError> {
        Vec::<u8>::try_from(self)
    }
}
#[cfg(not(feature = "alloc"))]
pub trait HasVec: Sized {
    fn vec(self) -> Result<Vec<u8>, DekuError>;
}
#[cfg(not(feature = "alloc"))]
impl<T: DekuContainerWrite> HasVec for T {
    fn vec(self) -> Result<Vec<u8>, DekuError> {
        unreachable!()
    }
}
#[cfg(all(feature = "bits", feature = "alloc"))]
pub trait HasBits: Sized {
    fn bits(self) -> Result<Vec<bool>, DekuError>;
}
#[cfg(all(feature = "bits", feature = "alloc"))]
impl<T> HasBits for T
where
    deku::bitvec::BitVec<u8, deku::bitvec::Msb0>: TryFrom<T, Error = DekuError>,
{
    fn bits(self) -> Result<Vec<bool>, DekuError> {
        Ok(deku::bitvec::BitVec::<u8, deku::bitvec::Msb0>::try_from(self)?.iter().by_vals().collect())
    }
}
#[cfg(not(all(feature = "bits", feature = "alloc")))]
pub trait HasBits: Sized {
    fn bits(self) -> Result<Vec<bool>, DekuError>;
}
#[cfg(not(all(feature = "bits", feature = "alloc")))]
impl<T> HasBits for T {
    fn bits(self) -> Result<Vec<bool>, DekuError> {
        unreachable!()
    }
}

pub struct Top {
    pub from_reader: for<'a, 'b> fn(&'a mut Io<'b>, usize) -> Result<(usize, Val), DekuError>,
    /// (rest length, rest bit offset, rest is the tail of the input)
    pub from_bytes: fn(&[u8], usize) -> Result<((usize, usize, bool), Val), DekuError>,
    pub try_from: fn(&[u8]) -> Result<Val, DekuError>,
    pub to_bytes: fn(&Val) -> Result<Vec<u8>, DekuError>,
    pub try_into_vec: fn(&Val) -> Result<Vec<u8>, DekuError>,
    pub to_slice: fn(&Val, &mut [u8]) -> Result<usize, DekuError>,
    pub to_bits: fn(&Val) -> Result<Vec<bool>, DekuError>,
    pub try_into_bits: fn(&Val) -> Result<Vec<bool>, DekuError>,
}

impl Top {
    pub fn of<T>() -> Top
    where
        T: ToVal + FromVal + 'static,
        for<'a> T: DekuContainerRead<'a> + TryFrom<&'a [u8], Error = DekuError>,
        T: DekuContainerWrite + HasVec + HasBits,
    {
        Top {
            from_reader: |r, o| {
                let (n, t) = T::from_reader((r, o))?;
                Ok((n, t.to_val()))
            },
            from_bytes: |b, o| {
                let ((rest, bit), t) = T::from_bytes((b, o))?;
                let tail = rest.len() <= b.len() && std::ptr::eq(rest.as_ptr(), b[b.len() - rest.len()..].as_ptr());
                Ok(((rest.len(), bit, tail), t.to_val()))
            },
            try_from: |b| Ok(T::try_from(b)?.to_val()),
            #[cfg(feature = "alloc")]
            to_bytes: |v| T::from_val(v).to_bytes(),
            #[cfg(not(feature = "alloc"))]
            to_bytes: |_| unreachable!(),
            try_into_vec: |v| T::from_val(v).vec(),
            to_slice: |v, b| T::from_val(v).to_slice(b),
            #[cfg(all(feature = "bits", feature = "alloc"))]
            to_bits: |v| Ok(T::from_val(v).to_bits()?.iter().by_vals().collect()),
            #[cfg(not(all(feature = "bits", feature = "alloc")))]
            to_bits: |_| unreachable!(),
            try_into_bits: |v| T::from_val(v).bits(),
        }
    }
}

pub struct Ops {
    pub idx: usize,
    pub read: for<'a> fn(&mut Reader<Io<'a>>, Ctx) -> Result<Val, DekuError>,
    pub write: for<'a> fn(&mut Writer<Io<'a>>, &Val, Ctx) -> Result<(), DekuError>,
    pub top: Option<Top>,
    pub id: Option<fn(&Val) -> Result<Val, DekuError>>,
    pub update: Option<fn(&Val) -> Result<Val, DekuError>>,
    pub size: Option<(usize, Option<usize>)>,
}

pub fn errc(e: &DekuError) -> ErrC {
    match e {
        DekuError::Incomplete(_) => ErrC::Incomplete,
        DekuError::Parse(_) => ErrC::Parse,
        DekuError::InvalidParam(_) => ErrC::InvalidParam,
        DekuError::Assertion(_) => ErrC::Assertion,
        DekuError::IdVariantNotFound => ErrC::IdNotFound,
        DekuError::Io(k) => ErrC::Io(format!("{k:?}")),
        other => ErrC::Panic(format!("unknown error {other:?}")),
    }
}

/// helpers the generated code calls
pub mod h {
    use super::*;
    use deku::no_std_io::{Read, Seek, Write};
    use deku::{DekuReader, DekuWriter};
    use std::cell::Cell;
    use std::hash::{BuildHasherDefault, Hasher};

    /// deterministic hasher (the iteration order of maps is part of the output)
    #[derive(Default, Clone)]
    pub struct Fnv(u64);
    impl Hasher for Fnv {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100_0000_01b3).rotate_left(5);
            }
        }
    }
    pub type Det = BuildHasherDefault<Fnv>;

    pub fn read_u24<R: Read + Seek>(r: &mut Reader<R>) -> Result<u32, DekuError> {
        let b = <[u8; 3]>::from_reader_with_ctx(r, ())?;
        Ok((b[0] as u32) << 16 | (b[1] as u32) << 8 | b[2] as u32)
    }
    pub fn write_u24<W: Write + Seek>(w: &mut Writer<W>, v: &u32) -> Result<(), DekuError> {
        let b = v.to_be_bytes();
        [b[1], b[2], b[3]].to_writer(w, ())
    }
    pub fn write_xor<W: Write + Seek>(w: &mut Writer<W>, v: &u8, k: u8) -> Result<(), DekuError> {
        (*v ^ k).to_writer(w, ())
    }
    pub fn lt(v: u8, k: u8) -> Result<u8, DekuError> {
        if v < k {
            Ok(v)
        } else {
            Err(deku::deku_error!(DekuError::Parse, "too big"))
        }
    }

    thread_local! {
        pub static MADE: Cell<u64> = const { Cell::new(0) };
        pub static DROPPED: Cell<u64> = const { Cell::new(0) };
        /// index of the construction that panics (u64::MAX: none)
        pub static PANIC_AT: Cell<u64> = const { Cell::new(u64::MAX) };
    }
    pub fn tracked_reset(panic_at: u64) {
        MADE.with(|c| c.set(0));
        DROPPED.with(|c| c.set(0));
        PANIC_AT.with(|c| c.set(panic_at));
    }
    pub fn tracked_counts() -> (u64, u64) {
        (MADE.with(|c| c.get()), DROPPED.with(|c| c.get()))
    }
    /// one byte on the wire, counts constructions and drops
    #[derive(Debug, PartialEq)]
    pub struct Tracked {
        v: Box<u8>,
    }
    impl Tracked {
        pub fn make(v: u8) -> Tracked {
            MADE.with(|c| c.set(c.get() + 1));
            Tracked { v: Box::new(v) }
        }
    }
    impl Clone for Tracked {
        fn clone(&self) -> Self {
            Tracked::make(*self.v)
        }
    }
    impl Drop for Tracked {
        fn drop(&mut self) {
            DROPPED.with(|c| c.set(c.get() + 1));
        }
    }
    impl<'a, C> DekuReader<'a, C> for Tracked {
        fn from_reader_with_ctx<R: Read + Seek>(r: &mut Reader<R>, _: C) -> Result<Self, DekuError> {
            if MADE.with(|c| c.get()) == PANIC_AT.with(|c| c.get()) {
                PANIC_AT.with(|c| c.set(u64::MAX));
                std::panic::panic_any(crate::io::Injected);
            }
            let v = u8::from_reader_with_ctx(r, ())?;
            Ok(Tracked::make(v))
        }
    }
    impl<C> DekuWriter<C> for Tracked {
        fn to_writer<W: Write + Seek>(&self, w: &mut Writer<W>, _: C) -> Result<(), DekuError> {
            (*self.v).to_writer(w, ())
        }
    }
    impl ToVal for Tracked {
        fn to_val(&self) -> Val {
            Val::U(*self.v as u128)
        }
    }
    impl FromVal for Tracked {
        fn from_val(v: &Val) -> Self {
            Tracked::make(u8::from_val(v))
        }
    }
}
