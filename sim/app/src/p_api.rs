//! Programs that use the library's traits by hand: every library type with
//! every context it takes, one after the other on one reader or writer, over
//! streams and sinks that are short, stop or fail.

use crate::fail;
use crate::p_read::mix;
use crate::sim::*;
use dcore::io::*;
use dcore::model::*;
use dcore::support::*;
use deku::ctx::{BitSize, ByteSize, Endian, Limit as DLimit, Order, ReadExact};
use deku::reader::Reader;
use deku::writer::Writer;
use deku::{DekuError, DekuReader, DekuWriter};
use dgen::schema::*;
use std::borrow::Cow;
use std::cell::Cell;
use std::collections::{HashMap, HashSet};
use std::hash::Hash;
use std::sync::Arc;

/// which pieces the context is made of
#[derive(Clone, Copy, Debug, PartialEq)]
enum Cx {
    None,
    En,
    Or,
    EnOr,
    Bit,
    Byte,
    BitOr,
    EnBit,
    EnByte,
    EnBitOr,
    EnByteOr,
}
const CX: [Cx; 11] = [Cx::None, Cx::En, Cx::Or, Cx::EnOr, Cx::Bit, Cx::Byte, Cx::BitOr, Cx::EnBit, Cx::EnByte, Cx::EnBitOr, Cx::EnByteOr];
impl Cx {
    fn en(self) -> bool {
        matches!(self, Cx::En | Cx::EnOr | Cx::EnBit | Cx::EnByte | Cx::EnBitOr | Cx::EnByteOr)
    }
    fn or(self) -> bool {
        matches!(self, Cx::Or | Cx::EnOr | Cx::BitOr | Cx::EnBitOr | Cx::EnByteOr)
    }
    fn bit(self) -> bool {
        matches!(self, Cx::Bit | Cx::BitOr | Cx::EnBit | Cx::EnBitOr)
    }
    fn byte(self) -> bool {
        matches!(self, Cx::Byte | Cx::EnByte | Cx::EnByteOr)
    }
}

#[derive(Clone, Debug)]
struct Step {
    t: Ty,
    l: Leaf,
    cx: Cx,
    lim: Limit,
    how: How,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    /// a library type over an integer
    Ty,
    /// a container without a context for its elements
    Plain,
    /// `Vec<u8>` of an exact size
    Exact,
    /// the predicate keeps count
    Counting,
    CStr,
    CStrN,
    Ip4,
    Ip6,
    Unit,
}

fn dk(en: En) -> Endian {
    match en {
        En::Be => Endian::Big,
        _ => Endian::Little,
    }
}
fn dor(or: Or) -> Order {
    match or {
        Or::Msb => Order::Msb0,
        Or::Lsb => Order::Lsb0,
    }
}

type Rd<'a, 'b> = Reader<Io<'a>>;

/// `step` for an element type and a context
fn rd_as<T, C: Copy>(rd: &mut Rd, x: &Step, c: C) -> Result<Val, DekuError>
where
    T: for<'x> DekuReader<'x, C> + ToVal + Eq + Hash + Clone + 'static,
{
    macro_rules! limited {
        ($t:ty, $e:ty, $key:expr) => {
            match &x.lim {
                Limit::Count(Ex::C(n)) if x.how == How::Counting => {
                    let left = Cell::new(*n);
                    <$t>::from_reader_with_ctx(
                        rd,
                        (
                            DLimit::new_until(|_: &$e| {
                                left.set(left.get() - 1);
                                left.get() == 0
                            }),
                            c,
                        ),
                    )
                    .map(|v| v.to_val())
                }
                Limit::Count(Ex::C(n)) => <$t>::from_reader_with_ctx(rd, (DLimit::new_count(*n as usize), c)).map(|v| v.to_val()),
                Limit::Bits(Ex::C(n)) => <$t>::from_reader_with_ctx(rd, (DLimit::from(BitSize(*n as usize)), c)).map(|v| v.to_val()),
                Limit::Bytes(Ex::C(n)) => <$t>::from_reader_with_ctx(rd, (DLimit::from(ByteSize(*n as usize)), c)).map(|v| v.to_val()),
                Limit::Until(k) => <$t>::from_reader_with_ctx(rd, (DLimit::from(|e: &$e| as_i(&$key(e)) == *k), c)).map(|v| v.to_val()),
                Limit::All => <$t>::from_reader_with_ctx(rd, (DLimit::end(), c)).map(|v| v.to_val()),
                l => panic!("{l:?}"),
            }
        };
    }
    let one = |e: &T| e.to_val();
    match &x.t {
        Ty::Int { .. } => T::from_reader_with_ctx(rd, c).map(|v| v.to_val()),
        Ty::Arr(..) => <[T; 3]>::from_reader_with_ctx(rd, c).map(|v| v.to_val()),
        Ty::Tup(ts) if ts.len() == 2 => <(T, T)>::from_reader_with_ctx(rd, c).map(|v| v.to_val()),
        Ty::Tup(_) => <(T, [T; 2], T)>::from_reader_with_ctx(rd, c).map(|v| v.to_val()),
        Ty::Opt(_) => <Option<T>>::from_reader_with_ctx(rd, c).map(|v| v.to_val()),
        Ty::Boxed(_) => <Box<T>>::from_reader_with_ctx(rd, c).map(|v| v.to_val()),
        Ty::Arc(_) => <Arc<T>>::from_reader_with_ctx(rd, c).map(|v| v.to_val()),
        Ty::Cow(_) => <Cow<'static, T>>::from_reader_with_ctx(rd, c).map(|v| v.to_val()),
        Ty::Vec(_) => limited!(Vec<T>, T, one),
        Ty::BoxSlice(_) => limited!(Box<[T]>, T, one),
        Ty::ArcSlice(_) => limited!(Arc<[T]>, T, one),
        Ty::Set(_) => limited!(HashSet<T>, T, one),
        Ty::Map(..) => limited!(HashMap<T, T>, (T, T), |e: &(T, T)| e.0.to_val()),
        t => panic!("{t:?}"),
    }
}
fn wr_as<T, C: Copy>(wr: &mut Writer<Io<'_>>, x: &Step, v: &Val, c: C) -> Result<(), DekuError>
where
    T: DekuWriter<C> + FromVal + Eq + Hash + Clone + 'static,
{
    match &x.t {
        Ty::Int { .. } => T::from_val(v).to_writer(wr, c),
        Ty::Arr(..) => <[T; 3]>::from_val(v).to_writer(wr, c),
        Ty::Tup(ts) if ts.len() == 2 => <(T, T)>::from_val(v).to_writer(wr, c),
        Ty::Tup(_) => <(T, [T; 2], T)>::from_val(v).to_writer(wr, c),
        Ty::Opt(_) => <Option<T>>::from_val(v).to_writer(wr, c),
        Ty::Boxed(_) => <Box<T>>::from_val(v).to_writer(wr, c),
        Ty::Arc(_) => <Arc<T>>::from_val(v).to_writer(wr, c),
        Ty::Cow(_) => {
            let t = T::from_val(v);
            Cow::Borrowed(&t).to_writer(wr, c)
        }
        Ty::Vec(_) => {
            let t = <Vec<T>>::from_val(v);
            match t.len() % 3 {
                0 => t.to_writer(wr, c),
                1 => t.as_slice().to_writer(wr, c),
                _ => <&[T] as DekuWriter<C>>::to_writer(&t.as_slice(), wr, c),
            }
        }
        Ty::BoxSlice(_) => <Box<[T]>>::from_val(v).to_writer(wr, c),
        Ty::ArcSlice(_) => <Arc<[T]>>::from_val(v).to_writer(wr, c),
        Ty::Set(_) => <HashSet<T>>::from_val(v).to_writer(wr, c),
        Ty::Map(..) => <HashMap<T, T>>::from_val(v).to_writer(wr, c),
        t => panic!("{t:?}"),
    }
}

/// `$f::<type of width and sign, _>(.., context)`
macro_rules! spread {
    ($w:expr, $x:expr, $f:ident ( $($a:expr),* )) => {{
        let (e, o) = (dk($x.l.en), dor($x.l.or));
        let (bi, by) = (BitSize($x.l.bits.unwrap_or(0) as usize), ByteSize($x.l.bytes.unwrap_or(0) as usize));
        macro_rules! go {
            ($t:ty) => {
                match $x.cx {
                    Cx::None => $f::<$t, ()>($($a,)* ()),
                    Cx::En => $f::<$t, Endian>($($a,)* e),
                    Cx::Or => $f::<$t, Order>($($a,)* o),
                    Cx::EnOr => $f::<$t, (Endian, Order)>($($a,)* (e, o)),
                    Cx::Bit => $f::<$t, BitSize>($($a,)* bi),
                    Cx::Byte => $f::<$t, ByteSize>($($a,)* by),
                    Cx::BitOr => $f::<$t, (BitSize, Order)>($($a,)* (bi, o)),
                    Cx::EnBit => $f::<$t, (Endian, BitSize)>($($a,)* (e, bi)),
                    Cx::EnByte => $f::<$t, (Endian, ByteSize)>($($a,)* (e, by)),
                    Cx::EnBitOr => $f::<$t, (Endian, BitSize, Order)>($($a,)* (e, bi, o)),
                    Cx::EnByteOr => $f::<$t, (Endian, ByteSize, Order)>($($a,)* (e, by, o)),
                }
            };
        }
        match $w {
            (8, false) => go!(u8),
            (16, false) => go!(u16),
            (32, true) => go!(i32),
            (64, false) => go!(u64),
            w => panic!("{w:?}"),
        }
    }};
}
const ELEMS: [(u32, bool); 4] = [(8, false), (16, false), (32, true), (64, false)];

fn elem(t: &Ty) -> (u32, bool) {
    match t {
        Ty::Int { w, s } => (*w, *s),
        Ty::Arr(t, _) | Ty::Vec(t) | Ty::Opt(t) | Ty::Boxed(t) | Ty::BoxSlice(t) | Ty::ArcSlice(t) | Ty::Arc(t) | Ty::Cow(t) | Ty::Map(t, _) | Ty::Set(t) => elem(t),
        Ty::Tup(ts) => elem(&ts[0]),
        t => panic!("{t:?}"),
    }
}

fn plain<T>(rd: &mut Rd, x: &Step) -> Result<Val, DekuError>
where
    T: for<'x> DekuReader<'x> + ToVal + Eq + Hash + Clone + 'static,
{
    macro_rules! limited {
        ($t:ty, $e:ty) => {
            match &x.lim {
                Limit::Count(Ex::C(n)) => <$t>::from_reader_with_ctx(rd, DLimit::from(*n as usize)).map(|v| v.to_val()),
                Limit::Bits(Ex::C(n)) => <$t>::from_reader_with_ctx(rd, DLimit::new_bit_size(BitSize(*n as usize))).map(|v| v.to_val()),
                Limit::Bytes(Ex::C(n)) => <$t>::from_reader_with_ctx(rd, DLimit::new_byte_size(ByteSize(*n as usize))).map(|v| v.to_val()),
                Limit::All => <$t>::from_reader_with_ctx(rd, DLimit::end()).map(|v| v.to_val()),
                l => panic!("{l:?}"),
            }
        };
    }
    match &x.t {
        Ty::Vec(_) => limited!(Vec<T>, T),
        Ty::Set(_) => limited!(HashSet<T>, T),
        Ty::Map(..) => limited!(HashMap<T, T>, (T, T)),
        t => panic!("{t:?}"),
    }
}

fn do_read(rd: &mut Rd, x: &Step) -> Result<Val, DekuError> {
    match x.how {
        How::Ty | How::Counting => spread!(elem(&x.t), x, rd_as(rd, x)),
        How::Plain => match elem(&x.t) {
            (8, _) => plain::<u8>(rd, x),
            (16, _) => plain::<u16>(rd, x),
            (32, _) => plain::<i32>(rd, x),
            _ => plain::<u64>(rd, x),
        },
        How::Exact => {
            let Limit::Count(Ex::C(n)) = x.lim else { panic!() };
            Vec::<u8>::from_reader_with_ctx(rd, ReadExact(n as usize)).map(|v| v.to_val())
        }
        How::CStr => std::ffi::CString::from_reader_with_ctx(rd, ()).map(|v| v.to_val()),
        How::CStrN => std::ffi::CString::from_reader_with_ctx(rd, ByteSize(x.l.bytes.unwrap() as usize)).map(|v| v.to_val()),
        How::Ip4 => match x.cx {
            Cx::None => core::net::Ipv4Addr::from_reader_with_ctx(rd, ()).map(|v| v.to_val()),
            _ => core::net::Ipv4Addr::from_reader_with_ctx(rd, dk(x.l.en)).map(|v| v.to_val()),
        },
        How::Ip6 => match x.cx {
            Cx::None => core::net::Ipv6Addr::from_reader_with_ctx(rd, ()).map(|v| v.to_val()),
            _ => core::net::Ipv6Addr::from_reader_with_ctx(rd, dk(x.l.en)).map(|v| v.to_val()),
        },
        How::Unit => <()>::from_reader_with_ctx(rd, dk(x.l.en)).map(|v| v.to_val()),
    }
}
fn do_write(wr: &mut Writer<Io<'_>>, x: &Step, v: &Val) -> Result<(), DekuError> {
    use core::net::*;
    match x.how {
        How::Ty | How::Counting => spread!(elem(&x.t), x, wr_as(wr, x, v)),
        How::Plain => match elem(&x.t) {
            (8, _) => wr_as::<u8, ()>(wr, x, v, ()),
            (16, _) => wr_as::<u16, ()>(wr, x, v, ()),
            (32, _) => wr_as::<i32, ()>(wr, x, v, ()),
            _ => wr_as::<u64, ()>(wr, x, v, ()),
        },
        How::Exact => <Vec<u8>>::from_val(v).to_writer(wr, ()),
        How::CStr | How::CStrN => std::ffi::CString::from_val(v).to_writer(wr, ()),
        How::Ip4 => match x.cx {
            Cx::None => IpAddr::V4(Ipv4Addr::from_val(v)).to_writer(wr, ()),
            _ => IpAddr::V4(Ipv4Addr::from_val(v)).to_writer(wr, dk(x.l.en)),
        },
        How::Ip6 => match x.cx {
            Cx::None => IpAddr::V6(Ipv6Addr::from_val(v)).to_writer(wr, ()),
            _ => IpAddr::V6(Ipv6Addr::from_val(v)).to_writer(wr, dk(x.l.en)),
        },
        How::Unit => ().to_writer(wr, dk(x.l.en)),
    }
}

fn pick_step(s: &Sim, or: Or, all: bool, bits: bool) -> Step {
    let lsb = or == Or::Lsb;
    let en = if s.draw(2, "step.endian") == 0 { En::Le } else { En::Be };
    let native = if Endian::default() == Endian::Little { En::Le } else { En::Be };
    let mut l = Leaf { en, or, bits: None, bytes: None };
    let (w, sg) = ELEMS[s.draw(4, "step.elem") as usize];
    let e = Ty::Int { w, s: sg };
    let n = s.draw(7, "step.n") as i64;
    let b = |t: &Ty| Box::new(t.clone());
    // what takes no context with an order
    if !lsb && s.chance(1, 4, "step.special") {
        let k = s.draw(8, "step.which");
        let cx = if s.chance(1, 2, "step.cx") { Cx::En } else { Cx::None };
        if cx == Cx::None {
            l.en = native;
        }
        let (t, how) = match k {
            0 => (Ty::CStr, How::CStr),
            1 => {
                l.bytes = Some(n as u32 + 1);
                (Ty::CStrN, How::CStrN)
            }
            2 => (Ty::Ip4, How::Ip4),
            3 => (Ty::Ip6, How::Ip6),
            4 => (Ty::Tup(vec![]), How::Unit),
            5 => (Ty::Vec(Box::new(Ty::Int { w: 8, s: false })), How::Exact),
            6 => (Ty::Vec(b(&e)), How::Plain),
            _ if s.chance(1, 2, "step.map") => (Ty::Map(b(&e), b(&e)), How::Plain),
            _ => (Ty::Set(b(&e)), How::Plain),
        };
        if how == How::Plain {
            l.en = native;
        }
        let lim = match how {
            How::Exact => Limit::Count(Ex::C(n)),
            How::Plain => pick_limit(s, n, w as i64 * if matches!(t, Ty::Map(..)) { 2 } else { 1 }, all, false),
            _ => Limit::None,
        };
        return Step { t, l, cx, lim, how };
    }
    let cx = loop {
        let c = CX[s.draw(11, "step.ctx") as usize];
        if lsb && !c.or() || !bits && (c.bit() || c == Cx::BitOr) {
            continue;
        }
        break c;
    };
    if !cx.en() {
        l.en = native;
    }
    let mut ew = w;
    if cx.bit() {
        let mut n = 1 + s.draw(w as u64, "step.bits") as u32;
        if sg {
            n = n.max(2);
        }
        if lsb && l.en == En::Be && n > 8 {
            n = n / 8 * 8;
        }
        l.bits = Some(n);
        ew = n;
    } else if cx.byte() {
        let n = 1 + s.draw(w as u64 / 8, "step.bytes") as u32;
        l.bytes = Some(n);
        ew = n * 8;
    }
    let k = s.draw(14, "step.shape");
    let t = match k {
        0 | 1 => e.clone(),
        2 => Ty::Arr(b(&e), 3),
        3 => Ty::Tup(vec![e.clone(), e.clone()]),
        4 => Ty::Tup(vec![e.clone(), Ty::Arr(b(&e), 2), e.clone()]),
        5 => Ty::Opt(b(&e)),
        6 => Ty::Boxed(b(&e)),
        7 => Ty::Arc(b(&e)),
        8 => Ty::Cow(b(&e)),
        9 => Ty::Vec(b(&e)),
        10 => Ty::BoxSlice(b(&e)),
        11 => Ty::ArcSlice(b(&e)),
        12 => Ty::Set(b(&e)),
        _ => Ty::Map(b(&e), b(&e)),
    };
    let mut how = How::Ty;
    let lim = if k < 9 {
        Limit::None
    } else {
        let lim = pick_limit(s, n, ew as i64 * if k == 13 { 2 } else { 1 }, all, true);
        if n > 0 && matches!(lim, Limit::Count(_)) && s.chance(1, 2, "step.counting") {
            how = How::Counting;
        }
        lim
    };
    Step { t, l, cx, lim, how }
}
fn pick_limit(s: &Sim, n: i64, ew: i64, all: bool, until: bool) -> Limit {
    match s.draw(if all { 7 } else { 5 }, "step.limit") {
        0 | 1 => Limit::Count(Ex::C(n)),
        2 if until => Limit::Until(s.draw(4, "step.until") as i64),
        2 | 3 => Limit::Bits(Ex::C(n * ew)),
        4 if ew % 8 == 0 => Limit::Bytes(Ex::C(n * ew / 8)),
        4 => Limit::Count(Ex::C(n)),
        _ => Limit::All,
    }
}

struct Prog {
    z: &'static Zoo,
    steps: Vec<Step>,
    data: Vec<u8>,
}
fn program(s: &mut Sim) -> Option<Prog> {
    let z: &'static Zoo = &s.zoos[0].0;
    let or = if s.chance(1, 4, "lsb") { Or::Lsb } else { Or::Msb };
    let n = 1 + s.draw(7, "steps");
    // reading to the end starts and stops at a byte
    let bits = s.chance(2, 3, "bits");
    let steps: Vec<Step> = (0..n).map(|i| pick_step(s, or, i + 1 == n && !bits, bits)).collect();
    let data = {
        let mut w = s.w.borrow_mut();
        let mut g = Dec::gen(z, w.tape.as_mut().unwrap(), 4);
        for x in &steps {
            if g.ty(&x.t, &x.l, &x.lim, None, None, &Env::default(), &Special::No).is_err() {
                return None;
            }
        }
        g.data
    };
    Some(Prog { z, steps, data })
}

/// what the format says about these bytes
fn decode(p: &Prog, m: &mut Dec) -> Vec<(Result<Val, ErrC>, u64)> {
    let mut out = vec![];
    for x in &p.steps {
        let r = m.ty(&x.t, &x.l, &x.lim, None, None, &Env::default(), &Special::No);
        let stop = r.is_err();
        out.push((r, m.bits));
        if stop {
            break;
        }
    }
    out
}

pub fn by_hand_read(s: &mut Sim) -> Res {
    let Some(mut p) = program(s) else { return Ok(false) };
    let (mut at, mut err) = (None, None);
    match s.draw(4, "api.fault") {
        0 => {
            let n = s.draw(p.data.len() as u64 + 1, "cut") as usize;
            p.data.truncate(n);
            s.fault(Fault::truncation);
        }
        1 => {
            let k = s.kind();
            let off = s.draw(p.data.len() as u64 + 1, "fault.at");
            at = Some((off, format!("{k:?}")));
            err = Some(At { off, kind: k, times: u32::MAX });
        }
        2 => {
            let more = s.draw(5, "more");
            for _ in 0..more {
                p.data.push(s.draw(256, "byte") as u8);
            }
            if !p.data.is_empty() {
                let i = s.draw(p.data.len() as u64, "flip.at") as usize;
                p.data[i] ^= 1 << s.draw(8, "flip.bit");
            }
        }
        _ => {}
    }
    mix(s, &p.data);
    let mut m = Dec::bytes(p.z, &p.data, Tail::Eof);
    m.err_at = at;
    let want = decode(&p, &mut m);
    if want.iter().any(|w| w.0 == Err(ErrC::Limit)) {
        return Ok(false);
    }
    let t = || format!("program {:#?}\ninput {}", p.steps, hex(&p.data));
    let mut st = stream(&s.w, "in", &p.data);
    st.policy = Policy::draw(&s.w);
    st.err = err;
    if s.chance(1, 2, "unseekable") {
        st.seekable = false;
    }
    {
        let mut rd = Reader::new(Io(&mut st));
        for (i, x) in p.steps.iter().enumerate() {
            let got = safely("read", || do_read(&mut rd, x)).map_err(|b| Bad { detail: format!("{} step {i}\n{}", b.detail, t()), ..b })?;
            let (w, bits) = &want[i];
            match (&got.map_err(|e| errc(&e)), w) {
                (Ok(g), Ok(w)) if g == w => {
                    if rd.bits_read as u64 != *bits {
                        fail!("wrong position", "step {i}: bits_read is {}, expected {bits}\n{}", rd.bits_read, t());
                    }
                }
                (Err(g), Err(w)) if g == w => {
                    s.probe("api_error");
                    break;
                }
                // the elements overshoot the announced size: some error
                (Err(_), Err(_)) if m.over => break,
                (g, w) => fail!(if g.is_ok() == w.is_ok() { "wrong value" } else if g.is_ok() { "accepted invalid input" } else { "refused a valid message" }, "step {i}: {g:?}, expected {w:?}\n{}", t()),
            }
        }
    }
    if want.iter().all(|w| w.0.is_ok()) {
        if st.pos > m.touched {
            fail!("read too far", "{} bytes were taken from the stream, the program needs {}\n{}", st.pos, m.touched, t());
        }
        s.probe("api_read");
    }
    Ok(true)
}

pub fn by_hand_write(s: &mut Sim) -> Res {
    let Some(p) = program(s) else { return Ok(false) };
    let mut m = Dec::bytes(p.z, &p.data, Tail::Eof);
    let vals: Vec<Val> = decode(&p, &mut m).into_iter().filter_map(|r| r.0.ok()).collect();
    if vals.len() < p.steps.len() {
        return Ok(false);
    }
    // the order of the entries of a map is not determined
    if vals.iter().any(|v| matches!(v, Val::M(x) if x.len() > 1) || matches!(v, Val::Set(x) if x.len() > 1)) {
        return Ok(false);
    }
    let mut e = Enc::new(p.z);
    let mut want = vec![];
    for (x, v) in p.steps.iter().zip(&vals) {
        let mut v = v.clone();
        if s.chance(1, 10, "tweak") && matches!(x.how, How::Ty) {
            crate::p_write::tweak_ty(s, p.z, &x.t, &mut v);
            if matches!(&v, Val::M(x) if x.len() > 1) || matches!(&v, Val::Set(x) if x.len() > 1) {
                return Ok(false);
            }
        }
        let r = e.ty(&x.t, &v, &x.l, None, &Special::No);
        let stop = r.is_err();
        want.push((v, r, e.bits));
        if stop {
            break;
        }
    }
    if e.mixed {
        return Ok(false);
    }
    let fine = want.iter().all(|w| w.1.is_ok());
    if fine {
        e.finalize();
    }
    let n = e.out.len();
    mix(s, &e.out);
    let t = || format!("program {:#?}\nvalues {:?}\nexpected {}", p.steps, want, hex(&e.out));
    let mut st = stream(&s.w, "out", &[]);
    st.policy = Policy::draw(&s.w);
    let mut kind = String::new();
    let mut limit = usize::MAX;
    if s.chance(1, 3, "api.fault") {
        let k = s.kind();
        limit = s.draw(n as u64 + 1, "fault.at") as usize;
        st.err = Some(At { off: limit as u64, kind: k, times: u32::MAX });
        kind = format!("{k:?}");
    }
    let mut res: Result<(), ErrC> = Ok(());
    let mut at = 0;
    {
        let mut wr = Writer::new(Io(&mut st));
        for (x, (v, w, bits)) in p.steps.iter().zip(&want) {
            res = safely("write", || do_write(&mut wr, x, v)).map_err(|b| Bad { detail: format!("{} step {at}\n{}", b.detail, t()), ..b })?.map_err(|e| errc(&e));
            at += 1;
            if res.is_err() {
                break;
            }
            if w.is_err() {
                fail!("accepted an invalid value", "step {at}: {v:?} is written\n{}", t());
            }
            let have = wr.bits_written as u64 + wr.rest().len() as u64;
            if have != *bits {
                fail!("wrong position", "step {at}: bits_written and rest make {have}, expected {bits}\n{}", t());
            }
        }
        if res.is_ok() {
            res = safely("finalize", || wr.finalize())?.map_err(|e| errc(&e));
            at += 1;
        }
    }
    match res {
        Ok(()) => {
            if limit < n {
                fail!("success although bytes were lost", "the sink failed at byte {limit}\n{}", t());
            }
            if st.data != e.out {
                fail!("wrong bytes", "wrote {}\n{}", hex(&st.data), t());
            }
            s.probe("api_written");
        }
        Err(g) => {
            if st.data.len() > e.out.len() + 16 || !e.out.starts_with(&st.data[..st.data.len().min(e.out.len())]) && fine {
                fail!("wrong bytes", "after a failure the sink has {}\n{}", hex(&st.data), t());
            }
            let own = want.last().and_then(|w| w.1.as_ref().err());
            let ok = limit <= n && g == ErrC::Io(kind.clone()) || own == Some(&g);
            if !ok {
                fail!("wrong kind of error", "{g:?} at step {at}\n{}", t());
            }
            if g == ErrC::Io(kind) && fine && limit < n && st.data.len() != limit {
                fail!("wrong bytes", "the sink took {limit} bytes, has {}\n{}", hex(&st.data), t());
            }
            s.probe("api_write_failed");
        }
    }
    Ok(true)
}
