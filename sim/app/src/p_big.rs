//! Long fields: payloads around and beyond the sizes in which the library and
//! its users buffer data.  Hand-written message types, because the generated
//! ones stay small; the reference is their encoding spelled out below.

use crate::fail;
use crate::sim::*;
use dcore::io::*;
use deku::prelude::*;
use deku::reader::Reader;
use deku::writer::Writer;
use deku::DekuError;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    Read,
    ReadFault,
    Truncate,
    Hostile,
    Write,
    WriteFault,
}

#[derive(DekuRead, DekuWrite)]
struct Bytes {
    #[deku(endian = "big")]
    n: u32,
    #[deku(count = "n")]
    d: Vec<u8>,
    t: u8,
}
#[derive(DekuRead, DekuWrite)]
struct Words {
    #[deku(endian = "big")]
    n: u32,
    #[deku(count = "n / 2", endian = "big")]
    d: Vec<u16>,
    t: u8,
}
#[derive(DekuRead, DekuWrite)]
struct ByBytes {
    #[deku(endian = "big")]
    n: u32,
    #[deku(bytes_read = "n")]
    d: Vec<u8>,
    t: u8,
}
#[derive(DekuRead, DekuWrite)]
struct CStr {
    d: std::ffi::CString,
    t: u8,
}
#[derive(DekuRead, DekuWrite)]
struct SizedCStr {
    #[deku(endian = "big")]
    n: u32,
    #[deku(bytes = "*n as usize")]
    d: std::ffi::CString,
    t: u8,
}
#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
struct Unaligned {
    #[deku(bits = 4)]
    a: u8,
    n: u32,
    #[deku(count = "n")]
    d: Vec<u8>,
    #[deku(bits = 4)]
    t: u8,
}
#[derive(DekuRead, DekuWrite)]
struct All {
    t: u8,
    #[deku(read_all)]
    d: Vec<u8>,
}
#[derive(DekuRead, DekuWrite)]
struct Boxed {
    #[deku(endian = "big")]
    n: u32,
    #[deku(count = "n")]
    d: Box<[u8]>,
    t: u8,
}
#[derive(DekuRead, DekuWrite)]
struct Elem {
    a: u8,
    #[deku(endian = "little")]
    b: u16,
}
#[derive(DekuRead, DekuWrite)]
struct Elems {
    #[deku(endian = "big")]
    n: u32,
    #[deku(count = "n / 3")]
    d: Vec<Elem>,
    t: u8,
}
#[derive(DekuRead, DekuWrite)]
struct Pad {
    #[deku(endian = "big")]
    n: u32,
    #[deku(pad_bytes_before = "*n as usize")]
    t: u8,
}
#[derive(DekuRead, DekuWrite)]
struct Array {
    d: [u8; 70_000],
    t: u8,
}
#[derive(DekuRead, DekuWrite)]
struct Until {
    #[deku(until = "|x: &u8| *x == 0")]
    d: Vec<u8>,
    t: u8,
}

/// what is in a message: payload and final byte
type Parts = (Vec<u8>, u8);

trait Long: for<'a> DekuContainerRead<'a> + DekuContainerWrite + for<'a> DekuReader<'a> + DekuWriter {
    fn parts(self) -> Parts;
    fn build(p: &Parts) -> Self;
}
macro_rules! counted {
    ($t:ident, |$d:ident| $to:expr, |$p:ident| $from:expr) => {
        impl Long for $t {
            fn parts(self) -> Parts {
                let $d = self.d;
                ($to, self.t)
            }
            fn build(x: &Parts) -> Self {
                let $p = &x.0;
                $t { n: $p.len() as u32, d: $from, t: x.1 }
            }
        }
    };
}
counted!(Bytes, |d| d, |p| p.clone());
counted!(ByBytes, |d| d, |p| p.clone());
counted!(Boxed, |d| d.into_vec(), |p| p.clone().into());
counted!(Words, |d| d.iter().flat_map(|w| w.to_be_bytes()).collect(), |p| p.chunks(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect());
counted!(Elems, |d| d.iter().flat_map(|e| [e.a, e.b as u8, (e.b >> 8) as u8]).collect(), |p| p.chunks(3).map(|c| Elem { a: c[0], b: u16::from_le_bytes([c[1], c[2]]) }).collect());
counted!(SizedCStr, |d| d.into_bytes_with_nul(), |p| std::ffi::CString::from_vec_with_nul(p.clone()).unwrap());
impl Long for Pad {
    fn parts(self) -> Parts {
        (vec![0; self.n as usize], self.t)
    }
    fn build(x: &Parts) -> Self {
        Pad { n: x.0.len() as u32, t: x.1 }
    }
}
impl Long for CStr {
    fn parts(self) -> Parts {
        (self.d.into_bytes_with_nul(), self.t)
    }
    fn build(x: &Parts) -> Self {
        CStr { d: std::ffi::CString::from_vec_with_nul(x.0.clone()).unwrap(), t: x.1 }
    }
}
impl Long for Until {
    fn parts(self) -> Parts {
        (self.d, self.t)
    }
    fn build(x: &Parts) -> Self {
        Until { d: x.0.clone(), t: x.1 }
    }
}
impl Long for All {
    fn parts(self) -> Parts {
        (self.d, self.t)
    }
    fn build(x: &Parts) -> Self {
        All { t: x.1, d: x.0.clone() }
    }
}
impl Long for Array {
    fn parts(self) -> Parts {
        (self.d.to_vec(), self.t)
    }
    fn build(x: &Parts) -> Self {
        Array { d: x.0.clone().try_into().unwrap(), t: x.1 }
    }
}
impl Long for Unaligned {
    fn parts(self) -> Parts {
        (self.d, self.a << 4 | self.t)
    }
    fn build(x: &Parts) -> Self {
        Unaligned { a: x.1 >> 4, n: x.0.len() as u32, d: x.0.clone(), t: x.1 & 15 }
    }
}

struct Kind {
    name: &'static str,
    /// payload lengths are multiples of
    unit: usize,
    /// a zero byte ends the payload
    nul: bool,
    counted: bool,
    greedy: bool,
    zeros: bool,
    len: Option<usize>,
    /// the payload is transferred in pieces of at least this many bytes
    piece: usize,
    read: fn(&mut Reader<Io>) -> Result<Parts, DekuError>,
    from_bytes: fn(&[u8]) -> Result<(usize, usize, Parts), DekuError>,
    write: fn(&mut Writer<Io>, &Parts) -> Result<(), DekuError>,
    to_slice: fn(&Parts, &mut [u8]) -> Result<usize, DekuError>,
    to_bytes: fn(&Parts) -> Result<Vec<u8>, DekuError>,
}
fn read<T: Long>(r: &mut Reader<Io>) -> Result<Parts, DekuError> {
    T::from_reader_with_ctx(r, ()).map(T::parts)
}
fn from_bytes<T: Long>(d: &[u8]) -> Result<(usize, usize, Parts), DekuError> {
    T::from_bytes((d, 0)).map(|((rest, bit), v)| (rest.len(), bit, v.parts()))
}
fn write<T: Long>(w: &mut Writer<Io>, p: &Parts) -> Result<(), DekuError> {
    T::build(p).to_writer(w, ())
}
fn to_slice<T: Long>(p: &Parts, b: &mut [u8]) -> Result<usize, DekuError> {
    T::build(p).to_slice(b)
}
fn to_bytes<T: Long>(p: &Parts) -> Result<Vec<u8>, DekuError> {
    T::build(p).to_bytes()
}
macro_rules! kind {
    ($t:ident, $($f:ident: $v:expr),*) => {
        Kind { $($f: $v,)* ..Kind { name: stringify!($t), unit: 1, nul: false, counted: true, greedy: false, zeros: false, len: None, piece: 1, read: read::<$t>, from_bytes: from_bytes::<$t>, write: write::<$t>, to_slice: to_slice::<$t>, to_bytes: to_bytes::<$t> } }
    };
}
const KINDS: &[Kind] = &[
    kind!(Bytes, piece: 4096),
    kind!(Words, unit: 2),
    kind!(ByBytes, piece: 1),
    kind!(CStr, nul: true, counted: false),
    kind!(SizedCStr, nul: true, piece: 1),
    kind!(Unaligned, piece: 1),
    kind!(All, counted: false, greedy: true),
    kind!(Boxed, piece: 1),
    kind!(Elems, unit: 3),
    kind!(Pad, zeros: true),
    kind!(Array, counted: false, len: Some(70_000), piece: 1),
    kind!(Until, nul: true, counted: false),
];

/// the format
fn encode(k: &Kind, p: &Parts) -> Vec<u8> {
    let n = (p.0.len() as u32).to_be_bytes();
    let mut o = vec![];
    if k.name == "Unaligned" {
        let mut body = n.to_vec();
        body.extend_from_slice(&p.0);
        let mut last = p.1 & 0xf0;
        for b in body {
            o.push(last | b >> 4);
            last = b << 4;
        }
        o.push(last | (p.1 & 15));
        return o;
    }
    if k.counted {
        o.extend_from_slice(&n);
    }
    if k.greedy {
        o.push(p.1);
    }
    o.extend_from_slice(&p.0);
    if !k.greedy {
        o.push(p.1);
    }
    o
}

fn payload(s: &Sim, k: &Kind, small: bool) -> Parts {
    let n = match k.len {
        Some(n) => n,
        None => {
            let n = match s.draw(if small { 2 } else { 6 }, "size") {
                0 => 1 + s.draw(200, "size.n"),
                1 => 4094 + s.draw(5, "size.n"),
                2 => 65534 + s.draw(5, "size.n"),
                3 => 131070 + s.draw(5, "size.n"),
                4 => 1 + s.draw(200_000, "size.n"),
                _ => 8190 + s.draw(5, "size.n"),
            } as usize;
            n.div_ceil(k.unit) * k.unit
        }
    };
    let mut x = s.draw(u32::MAX as u64, "content") | 1;
    let mut d: Vec<u8> = (0..n)
        .map(|_| {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let b = (x >> 56) as u8;
            if k.zeros {
                0
            } else if k.nul && b == 0 {
                1
            } else {
                b
            }
        })
        .collect();
    if k.nul {
        *d.last_mut().unwrap() = 0;
    }
    (d, s.draw(256, "last") as u8)
}

fn policy(s: &Sim, k: &Kind) -> Policy {
    let mut p = Policy::calm();
    if k.piece > 1 || k.name != "CStr" && k.name != "Until" && s.draw(8, "policy.all") == 0 {
        p.short = 2;
        p.max_chunk = [1, 100, 5000, 70_000][s.draw(4, "policy.chunk") as usize];
        if p.max_chunk < 1000 {
            p.short = 10;
        }
        p.intr = [0, 3, 50][s.draw(3, "policy.intr") as usize];
    }
    p
}

fn show(p: &Result<Parts, DekuError>) -> String {
    match p {
        Ok(p) => format!("Ok({} bytes starting {:x?}, {:x})", p.0.len(), &p.0[..p.0.len().min(8)], p.1),
        Err(e) => format!("{e:?}"),
    }
}

pub fn bulk(s: &mut Sim, mode: Mode) -> Res {
    let k = &KINDS[s.draw(KINDS.len() as u64, "kind") as usize];
    let name = k.name;
    s.note(|| format!("long message {name} {mode:?}"));
    match mode {
        Mode::Read => {
            let n = if k.greedy { 1 } else { 1 + s.draw(2, "messages") };
            let vals: Vec<Parts> = (0..n).map(|i| payload(s, k, i > 0)).collect();
            let data: Vec<u8> = vals.iter().flat_map(|v| encode(k, v)).collect();
            if s.chance(1, 3, "from_bytes") {
                let mut rest = &data[..];
                for v in &vals {
                    let len = encode(k, v).len();
                    match safely("from_bytes", || (k.from_bytes)(rest))? {
                        Ok((r, 0, p)) if r == rest.len() - len && p == *v => rest = &rest[len..],
                        Ok((r, b, p)) => fail!("wrong value", "{name}: from_bytes gives {}, {r} bytes and bit {b} left of {}, expected {}", show(&Ok(p)), rest.len(), show(&Ok(v.clone()))),
                        Err(e) => fail!("rejected valid input", "{name}: from_bytes of {} bytes: {e:?}", rest.len()),
                    }
                }
                return Ok(true);
            }
            let mut st = stream(&s.w, "in", &data);
            st.trace = false;
            st.policy = policy(s, k);
            let ask = s.chance(1, 3, "ask");
            let noseek = s.chance(1, 3, "noseek");
            st.seekable = !noseek;
            let run = |io: &mut dyn Rws| {
                let mut rd = Reader::new(Io(io));
                let mut o = vec![];
                for _ in &vals {
                    if ask {
                        rd.end();
                    }
                    let r = (k.read)(&mut rd);
                    o.push((r, rd.bits_read));
                }
                (o, rd.end())
            };
            let (got, end) = if noseek { safely("read", || run(&mut Ns(deku::noseek::NoSeek::new(&mut st))))? } else { safely("read", || run(&mut st))? };
            let mut pos = 0;
            for (v, (r, bits)) in vals.iter().zip(&got) {
                pos += encode(k, v).len() * 8;
                match r {
                    Ok(p) if p != v => fail!("wrong value", "{name}: got {}, expected {} (asked for the end: {ask})", show(r), show(&Ok(v.clone()))),
                    Ok(_) if *bits != pos => fail!("wrong position", "{name}: at bit {bits}, expected {pos} (asked for the end: {ask})"),
                    Ok(_) => {}
                    Err(e) => fail!("rejected valid input", "{name} of {} bytes: {e:?} (asked for the end: {ask})", v.0.len()),
                }
            }
            if !end {
                fail!("wrong end", "{name}: end() is false behind the last of {} bytes", data.len());
            }
        }
        Mode::ReadFault => {
            let v = payload(s, k, false);
            let data = encode(k, &v);
            let off = s.draw(data.len() as u64, "fault.at");
            let kind = s.kind();
            let mut st = stream(&s.w, "in", &data);
            st.trace = false;
            st.policy = policy(s, k);
            st.err = Some(At { off, kind, times: s.times() });
            let noseek = s.chance(1, 3, "noseek");
            st.seekable = !noseek;
            let run = |io: &mut dyn Rws| (k.read)(&mut Reader::new(Io(io)));
            let r = if noseek { safely("read", || run(&mut Ns(deku::noseek::NoSeek::new(&mut st))))? } else { safely("read", || run(&mut st))? };
            match &r {
                Err(DekuError::Io(x)) if *x == kind => {}
                Ok(_) => fail!("value fabricated after an I/O error", "{name}: the stream fails with {kind:?} at byte {off} of {}: {}", data.len(), show(&r)),
                _ => fail!("I/O error lost", "{name}: the stream fails with {kind:?} at byte {off} of {}: {}", data.len(), show(&r)),
            }
        }
        Mode::Truncate => {
            let v = payload(s, k, false);
            let data = encode(k, &v);
            if k.greedy {
                return Ok(false);
            }
            let cut = if s.chance(1, 3, "cut.near") { data.len() - 1 - s.draw(4.min(data.len() as u64 - 1), "cut") as usize } else { s.draw(data.len() as u64, "cut") as usize };
            s.fault(Fault::truncation);
            let mut st = stream(&s.w, "in", &data[..cut]);
            st.trace = false;
            st.policy = policy(s, k);
            let ask = s.chance(1, 3, "ask");
            let noseek = s.chance(1, 3, "noseek");
            st.seekable = !noseek;
            let run = |io: &mut dyn Rws| {
                let mut rd = Reader::new(Io(io));
                if ask {
                    rd.end();
                }
                (k.read)(&mut rd)
            };
            let r = if noseek { safely("read", || run(&mut Ns(deku::noseek::NoSeek::new(&mut st))))? } else { safely("read", || run(&mut st))? };
            match &r {
                Err(DekuError::Incomplete(n)) if n.bit_size() > 0 => {}
                Err(DekuError::Incomplete(_)) => fail!("incomplete without a need", "{name}: {cut} of {} bytes arrive: {}", data.len(), show(&r)),
                Ok(_) => fail!("value from a truncated stream", "{name}: {cut} of {} bytes arrive: {}", data.len(), show(&r)),
                Err(_) => fail!("truncation not reported as incomplete", "{name}: {cut} of {} bytes arrive: {}", data.len(), show(&r)),
            }
        }
        Mode::Hostile => {
            if !k.counted || k.name == "Unaligned" {
                return Ok(false);
            }
            let v = payload(s, k, true);
            let mut data = encode(k, &v);
            let n = match s.draw(4, "lie") {
                0 => u32::MAX,
                1 => 1 << 31,
                2 => (v.0.len() + 1 + s.draw(1 << 20, "lie.n") as usize + 4) as u32,
                _ => (v.0.len() as u32).saturating_add(s.draw(u32::MAX as u64, "lie.n") as u32).max(v.0.len() as u32 + 8),
            };
            data[..4].copy_from_slice(&n.to_be_bytes());
            s.fault(Fault::hostile_bytes);
            let mut st = stream(&s.w, "in", &data);
            st.trace = false;
            st.policy = policy(s, k);
            let noseek = s.chance(1, 2, "noseek");
            st.seekable = !noseek;
            let base = crate::alloc::reset();
            let run = |io: &mut dyn Rws| (k.read)(&mut Reader::new(Io(io)));
            let r = if noseek { safely("read", || run(&mut Ns(deku::noseek::NoSeek::new(&mut st))))? } else { safely("read", || run(&mut st))? };
            let (peak, big) = crate::alloc::peak();
            let used = (peak - base).max(0) as u64;
            let allowed = (512 << 10) + 16 * data.len() as u64;
            if used > allowed {
                fail!("memory not bounded by the input", "{name}: {used} bytes (largest request {big}) for {} bytes of input that announce {n}", data.len());
            }
            if !matches!(&r, Err(DekuError::Incomplete(_))) {
                fail!("accepted invalid input", "{name}: {} bytes that announce {n}: {}", data.len(), show(&r));
            }
            if st.reads > 1000 + 4 * data.len() as u64 {
                fail!("no progress", "{name}: {} read calls for {} bytes of input that announce {n}", st.reads, data.len());
            }
        }
        Mode::Write => {
            let v = payload(s, k, false);
            let want = encode(k, &v);
            match s.draw(3, "entry") {
                0 => match safely("to_bytes", || (k.to_bytes)(&v))? {
                    Ok(b) if b == want => {}
                    Ok(b) => fail!("wrong bytes", "{name}: to_bytes gives {} bytes, expected {} (first difference at {:?})", b.len(), want.len(), b.iter().zip(&want).position(|(a, b)| a != b)),
                    Err(e) => fail!("refused a valid value", "{name} of {} bytes: {e:?}", v.0.len()),
                },
                1 => {
                    let room = s.draw(3, "room") as usize;
                    let mut b = vec![0xA5; want.len() + room];
                    match safely("to_slice", || (k.to_slice)(&v, &mut b))? {
                        Ok(n) if n == want.len() && b[..n] == want && b[n..].iter().all(|x| *x == 0xA5) => {}
                        r => fail!("wrong bytes", "{name}: to_slice into {} bytes gives {r:?}, expected {} (first difference at {:?})", b.len(), want.len(), b.iter().zip(&want).position(|(a, b)| a != b)),
                    }
                }
                _ => {
                    let mut st = stream(&s.w, "out", &[]);
                    st.trace = false;
                    st.policy = policy(s, k);
                    let (r, bits) = safely("write", || {
                        let mut w = Writer::new(Io(&mut st));
                        let r = (k.write)(&mut w, &v).and_then(|_| w.finalize());
                        (r, w.bits_written)
                    })?;
                    if let Err(e) = r {
                        fail!("refused a valid value", "{name} of {} bytes: {e:?}", v.0.len());
                    }
                    if st.data != want {
                        fail!("wrong bytes", "{name}: {} bytes written, expected {} (first difference at {:?})", st.data.len(), want.len(), st.data.iter().zip(&want).position(|(a, b)| a != b));
                    }
                    if bits != want.len() * 8 {
                        fail!("wrong position", "{name}: {bits} bits written, expected {}", want.len() * 8);
                    }
                }
            }
        }
        Mode::WriteFault => {
            let v = payload(s, k, false);
            let want = encode(k, &v);
            let off = s.draw(want.len() as u64, "fault.at");
            let kind = s.kind();
            let mut st = stream(&s.w, "out", &[]);
            st.trace = false;
            st.policy = policy(s, k);
            if s.chance(1, 2, "fault.kind") {
                st.cap = Some(off);
                st.full_kind = kind;
            } else {
                st.err = Some(At { off, kind, times: s.times() });
            }
            let r = safely("write", || {
                let mut w = Writer::new(Io(&mut st));
                (k.write)(&mut w, &v).and_then(|_| w.finalize())
            })?;
            match &r {
                Err(DekuError::Io(x)) if *x == kind => {}
                Ok(()) => fail!("success although bytes were lost", "{name}: the sink fails with {kind:?} at byte {off} of {}", want.len()),
                Err(e) => fail!("wrong kind of error", "{name}: the sink fails with {kind:?} at byte {off} of {}: {e:?}", want.len()),
            }
            if st.data != want[..off as usize] {
                fail!("sink corrupted", "{name}: {} bytes accepted, room for {off} (first difference at {:?})", st.data.len(), st.data.iter().zip(&want).position(|(a, b)| a != b));
            }
        }
    }
    s.probe("long_message");
    Ok(true)
}
