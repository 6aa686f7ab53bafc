//! The bit- and byte-level machinery of Reader and Writer alone.

use crate::fail;
use crate::p_read::mix;
use crate::sim::*;
use dcore::io::*;
use dcore::model::*;
use dcore::support::*;
use deku::no_std_io::{Read, Seek as _, SeekFrom, Write};
use deku::reader::{Reader, ReaderRet};
use deku::writer::Writer;
use deku::DekuError;
use dgen::schema::*;

struct Wide;
macro_rules! wide {
    ($($n:literal),*) => {
        fn read_const<R: Read + deku::no_std_io::Seek>(rd: &mut Reader<R>, n: usize, o: deku::ctx::Order, into: bool) -> Result<(Vec<u8>, Option<Vec<bool>>), DekuError> {
            match n {
                $($n => {
                    let mut b = [0u8; $n];
                    if into {
                        rd.read_bytes_const_into::<$n>(&mut b, o)?;
                        return Ok((b.to_vec(), None));
                    }
                    match rd.read_bytes_const::<$n>(&mut b, o)? {
                        ReaderRet::Bytes => Ok((b.to_vec(), None)),
                        ReaderRet::Bits(x) => Ok((b.to_vec(), Some(x.map(|b| b.iter().by_vals().collect()).unwrap_or_default()))),
                    }
                })*
                _ => unreachable!(),
            }
        }
    };
}
wide!(1, 2, 3, 4, 8, 16);
impl Wide {
    const N: [usize; 6] = [1, 2, 3, 4, 8, 16];
}

fn leaf_read<R: Read + deku::no_std_io::Seek>(rd: &mut Reader<R>, w: u32, sg: bool, en: deku::ctx::Endian, or: deku::ctx::Order, sz: Option<(bool, usize)>) -> Result<Val, DekuError> {
    use deku::ctx::{BitSize, ByteSize};
    use deku::DekuReader;
    macro_rules! go {
        ($t:ty) => {
            match sz {
                None => <$t>::from_reader_with_ctx(rd, (en, or)),
                Some((true, n)) => <$t>::from_reader_with_ctx(rd, (en, BitSize(n), or)),
                Some((false, n)) => <$t>::from_reader_with_ctx(rd, (en, ByteSize(n), or)),
            }
            .map(|v| v.to_val())
        };
    }
    match (w, sg) {
        (8, false) => go!(u8),
        (8, true) => go!(i8),
        (16, false) => go!(u16),
        (16, true) => go!(i16),
        (32, false) => go!(u32),
        (32, true) => go!(i32),
        (64, false) => go!(u64),
        (64, true) => go!(i64),
        (_, false) => go!(u128),
        (_, true) => go!(i128),
    }
}
fn leaf_write<W: Write + deku::no_std_io::Seek>(wr: &mut Writer<W>, v: &Val, w: u32, sg: bool, en: deku::ctx::Endian, or: deku::ctx::Order, sz: Option<(bool, usize)>) -> Result<(), DekuError> {
    use deku::ctx::{BitSize, ByteSize};
    use deku::DekuWriter;
    macro_rules! go {
        ($t:ty) => {{
            let x = <$t>::from_val(v);
            match sz {
                None => x.to_writer(wr, (en, or)),
                Some((true, n)) => x.to_writer(wr, (en, BitSize(n), or)),
                Some((false, n)) => x.to_writer(wr, (en, ByteSize(n), or)),
            }
        }};
    }
    match (w, sg) {
        (8, false) => go!(u8),
        (8, true) => go!(i8),
        (16, false) => go!(u16),
        (16, true) => go!(i16),
        (32, false) => go!(u32),
        (32, true) => go!(i32),
        (64, false) => go!(u64),
        (64, true) => go!(i64),
        (_, false) => go!(u128),
        (_, true) => go!(i128),
    }
}

/// an integer with a size: (width, signed, endian, declared size)
fn pick_leafspec(s: &Sim, lsb: bool) -> (u32, bool, En, Option<(bool, usize)>, u32) {
    let w = [8u32, 16, 32, 64, 128][s.draw(5, "leaf.width") as usize];
    let sg = s.chance(1, 3, "leaf.signed");
    let en = if s.draw(2, "leaf.endian") == 0 { En::Le } else { En::Be };
    match s.draw(3, "leaf.size") {
        0 => (w, sg, en, None, w),
        1 => {
            let mut n = 1 + s.draw(w as u64, "leaf.bits") as u32;
            if sg {
                n = n.max(2)
            }
            if lsb && en == En::Be && n > 8 {
                n = n / 8 * 8;
            }
            (w, sg, en, Some((true, n as usize)), n)
        }
        _ => {
            let n = 1 + s.draw(w as u64 / 8, "leaf.bytes") as u32;
            (w, sg, en, Some((false, n as usize)), n * 8)
        }
    }
}
fn dk(en: En) -> deku::ctx::Endian {
    if en == En::Le {
        deku::ctx::Endian::Little
    } else {
        deku::ctx::Endian::Big
    }
}
fn bs(b: &[bool]) -> String {
    b.iter().map(|x| if *x { '1' } else { '0' }).collect()
}

pub fn c_bits(s: &mut Sim) -> Res {
    if s.chance(1, 2, "write") {
        if s.chance(1, 12, "mixed") {
            return mixed_write(s);
        }
        bits_write(s)
    } else {
        bits_read(s)
    }
}

fn bits_read(s: &mut Sim) -> Res {
    let z: &'static Zoo = &s.zoos[0].0;
    let n = 1 + s.draw(60, "len");
    let data: Vec<u8> = (0..n).map(|_| s.draw(256, "byte") as u8).collect();
    mix(s, &data);
    let mut or = if s.chance(1, 3, "lsb") { Or::Lsb } else { Or::Msb };
    let mut m = Dec::bytes(z, &data, Tail::Eof);
    let mut st = stream(&s.w, "in", &data);
    st.policy = Policy::draw(&s.w);
    let seekable = s.chance(1, 2, "seekable");
    if !seekable {
        st.seekable = false;
    }
    if s.chance(1, 4, "fault") {
        let off = s.draw(n + 1, "fault.at");
        let k = s.kind();
        st.err = Some(At { off, kind: k, times: u32::MAX });
        m.err_at = Some((off, format!("{k:?}")));
    }
    let mut rd = Reader::new(&mut st);
    let mut log: Vec<String> = vec![];
    let mut done = 0;
    for _ in 0..1 + s.draw(24, "ops") {
        if m.cur.a == m.cur.b && s.chance(1, 6, "switch.order") {
            or = if or == Or::Msb { Or::Lsb } else { Or::Msb };
        }
        let o = if or == Or::Msb { deku::ctx::Order::Msb0 } else { deku::ctx::Order::Lsb0 };
        let lsb = or == Or::Lsb;
        let unaligned = m.cur.a != m.cur.b;
        let wire = |b: Vec<bool>| -> Vec<bool> {
            if lsb {
                b.into_iter().rev().collect()
            } else {
                b
            }
        };
        macro_rules! same_err {
            ($r:expr, $w:expr, $what:expr) => {
                match (&$r, &$w) {
                    (Ok(_), Ok(_)) => {}
                    (Err(e), Err(x)) if errc(e) == *x => {
                        s.probe("failed");
                        return Ok(true);
                    }
                    (r, w) => fail!(if r.is_ok() { "accepted invalid input" } else { "wrong kind of error" }, "{}: error {:?}, expected {:?}\nhistory {log:?}\ninput {}", $what, r.as_ref().err(), w.as_ref().err(), hex(&data)),
                }
            };
        }
        match s.draw(9, "op") {
            0 | 1 => {
                let k = match s.draw(4, "n.kind") {
                    0 => s.draw(9, "n"),
                    1 => s.draw(33, "n"),
                    2 => 8 * s.draw(5, "n"),
                    _ => s.draw(140, "n"),
                } as u32;
                let want = m.take(k, or);
                log.push(format!("read_bits {k} {o:?}"));
                let r = safely("read_bits", || rd.read_bits(k as usize, o)).map_err(|b| Bad { detail: format!("{} {log:?} {}", b.detail, hex(&data)), ..b })?;
                same_err!(r, want, "read_bits");
                let got: Vec<bool> = r.unwrap().map(|b| b.iter().by_vals().collect()).unwrap_or_default();
                let want = wire(want.unwrap());
                if got != want {
                    fail!("wrong value", "read_bits {k} gives {}, expected {}\nhistory {log:?}\ninput {}", bs(&got), bs(&want), hex(&data));
                }
            }
            2 | 3 => {
                // bytes: through a slice or an array
                let how = s.draw(3, "how");
                let k = if how == 0 { s.draw(20, "n") as usize } else { Wide::N[s.draw(6, "n") as usize] };
                log.push(format!("read_bytes[{how}] {k} {o:?}"));
                let want = m.take(k as u32 * 8, or);
                let r = safely("read_bytes", || {
                    if how == 0 {
                        let mut b = vec![0u8; k];
                        match rd.read_bytes(k, &mut b, o)? {
                            ReaderRet::Bytes => Ok((b, None)),
                            ReaderRet::Bits(x) => Ok((b, Some(x.map(|b| b.iter().by_vals().collect::<Vec<bool>>()).unwrap_or_default()))),
                        }
                    } else {
                        read_const(&mut rd, k, o, how == 2)
                    }
                })
                .map_err(|b| Bad { detail: format!("{} {log:?} {}", b.detail, hex(&data)), ..b })?;
                same_err!(r, want, "read_bytes");
                let want = want.unwrap();
                let (b, x) = r.unwrap();
                match x {
                    None => {
                        // each byte in stream order
                        let w: Vec<u8> = want.chunks(8).map(|c| c.iter().enumerate().fold(0u8, |a, (i, x)| a | (*x as u8) << if lsb && unaligned { i } else if lsb { i } else { 7 - i })).collect();
                        if b != w {
                            fail!("wrong value", "read_bytes {k} gives {}, expected {}\nhistory {log:?}\ninput {}", hex(&b), hex(&w), hex(&data));
                        }
                    }
                    Some(x) => {
                        if x.len() != want.len() || !(x == want || x == wire(want.clone()) || lsb) {
                            fail!("wrong value", "read_bytes {k} gives bits {}, expected {}\nhistory {log:?}\ninput {}", bs(&x), bs(&want), hex(&data));
                        }
                    }
                }
            }
            4 => {
                let k = if s.chance(1, 6, "far") { s.draw(400, "n") } else { s.draw(50, "n") };
                log.push(format!("skip_bits {k} {o:?}"));
                let want = m.skip(k, or);
                let r = safely("skip_bits", || rd.skip_bits(k as usize, o)).map_err(|b| Bad { detail: format!("{} {log:?} {}", b.detail, hex(&data)), ..b })?;
                same_err!(r, want, "skip_bits");
            }
            5 | 6 => {
                let (w, sg, en, sz, nb) = pick_leafspec(s, lsb);
                log.push(format!("read {}{w} {en:?} {sz:?} {o:?}", if sg { 'i' } else { 'u' }));
                let l = Leaf { en, or, bits: Some(nb), bytes: None };
                let want = m.int(w, sg, &l, None);
                let r = safely("read integer", || leaf_read(&mut rd, w, sg, dk(en), o, sz)).map_err(|b| Bad { detail: format!("{} {log:?} {}", b.detail, hex(&data)), ..b })?;
                same_err!(r, want, "integer");
                let (got, want) = (r.unwrap(), want.unwrap());
                if got != want {
                    fail!("wrong value", "integer {got:?}, expected {want:?}\nhistory {log:?}\ninput {}", hex(&data));
                }
            }
            7 => {
                let (a, b) = (m.cur.a, m.cur.b);
                let byte = if a != b { data[m.cur.pos as usize - 1] } else { 0 };
                let want: Vec<bool> = (a..b).map(|i| byte >> (7 - i) & 1 == 1).collect();
                log.push("rest".into());
                let got = safely("rest", || rd.rest())?;
                if got != want {
                    fail!("wrong rest", "rest gives {}, expected {}\nhistory {log:?}\ninput {}", bs(&got), bs(&want), hex(&data));
                }
            }
            _ => {
                if s.chance(1, 2, "end") || !seekable {
                    log.push("end".into());
                    let want = m.at_end();
                    let got = safely("end", || rd.end())?;
                    match want {
                        Ok(w) if w != got => fail!("wrong end", "end() is {got}, expected {w}\nhistory {log:?}\ninput {}", hex(&data)),
                        Ok(_) => {}
                        // an error is not the end
                        Err(_) if got => fail!("I/O error lost", "end() is true although the stream fails\nhistory {log:?}\ninput {}", hex(&data)),
                        Err(_) => {}
                    }
                } else {
                    let (sk, f) = match s.draw(3, "where") {
                        0 => {
                            let p = s.draw(n + 3, "to");
                            (Seek::Start(p), SeekFrom::Start(p))
                        }
                        1 => {
                            let d = s.draw(9, "to") as i64 - 4;
                            (Seek::Cur(d), SeekFrom::Current(d))
                        }
                        _ => {
                            let d = -(s.draw(5, "to") as i64);
                            (Seek::End(d), SeekFrom::End(d))
                        }
                    };
                    log.push(format!("seek {f:?}"));
                    let want = m.seek(&sk, &Env::default());
                    let r = safely("seek", || rd.seek(f).map(|_| ()))?.map_err(|e| DekuError::Io(e.kind()));
                    same_err!(r, want, "seek");
                }
            }
        }
        if rd.bits_read as u64 != m.bits {
            fail!("wrong position", "bits_read is {}, expected {}\nhistory {log:?}\ninput {}", rd.bits_read, m.bits, hex(&data));
        }
        done += 1;
    }
    s.note(|| format!("{log:?}"));
    s.probe("read_history");
    Ok(done > 1)
}

fn bits_write(s: &mut Sim) -> Res {
    use deku::bitvec::{BitVec, Msb0};
    let z: &'static Zoo = &s.zoos[0].0;
    let mut or = if s.chance(1, 3, "lsb") { Or::Lsb } else { Or::Msb };
    let mut m = Enc::new(z);
    let mut st = stream(&s.w, "out", &[]);
    st.policy = Policy::draw(&s.w);
    let mut limit = u64::MAX;
    let mut kind = String::new();
    if s.chance(1, 4, "fault") {
        limit = s.draw(40, "fault.at");
        let k = s.kind();
        st.err = Some(At { off: limit, kind: k, times: u32::MAX });
        kind = format!("{k:?}");
    }
    let mut wr = Writer::new(&mut st);
    let mut log: Vec<String> = vec![];
    let mut seeked = false;
    let mut failed = false;
    for _ in 0..1 + s.draw(24, "ops") {
        if m.a == m.b && s.chance(1, 6, "switch.order") {
            or = if or == Or::Msb { Or::Lsb } else { Or::Msb };
        }
        let o = if or == Or::Msb { deku::ctx::Order::Msb0 } else { deku::ctx::Order::Lsb0 };
        let lsb = or == Or::Lsb;
        let r: Result<Result<(), DekuError>, Bad> = match s.draw(7, "op") {
            0 | 1 => {
                let k = match s.draw(4, "n.kind") {
                    0 => s.draw(9, "n"),
                    1 => s.draw(33, "n"),
                    2 => 8 * s.draw(5, "n"),
                    _ => s.draw(140, "n"),
                };
                let bits: Vec<bool> = (0..k).map(|_| s.draw(2, "bit") == 1).collect();
                log.push(format!("write_bits {} {o:?}", bs(&bits)));
                let bv: BitVec<u8, Msb0> = bits.iter().collect();
                let w: Vec<bool> = if lsb { bits.iter().rev().copied().collect() } else { bits.clone() };
                m.put(&w, or);
                let plain = !lsb && s.chance(1, 2, "plain");
                safely("write_bits", || if plain { wr.write_bits(&bv) } else { wr.write_bits_order(&bv, o) })
            }
            2 => {
                if lsb && m.a != m.b {
                    continue;
                }
                let b: Vec<u8> = (0..s.draw(20, "n")).map(|_| s.draw(256, "byte") as u8).collect();
                log.push(format!("write_bytes {}", hex(&b)));
                for x in &b {
                    let bits = int_bits(*x as u128, 8, En::Be, if m.a == m.b { Or::Msb } else { or });
                    m.put(&bits, if m.a == m.b { Or::Msb } else { or });
                }
                safely("write_bytes", || wr.write_bytes(&b))
            }
            3 | 4 | 5 => {
                let (w, sg, en, sz, nb) = pick_leafspec(s, lsb);
                let hi = s.draw(u64::MAX, "v.hi") as u128;
                let u = s.draw(u64::MAX, "v.lo") as u128 | hi << 64;
                let u = u & if nb >= 128 { u128::MAX } else { (1 << nb) - 1 };
                let v = if sg { Val::I(sext(u, nb)) } else { Val::U(u) };
                log.push(format!("write {v:?} as {}{w} {en:?} {sz:?} {o:?}", if sg { 'i' } else { 'u' }));
                let bits = int_bits(u, nb, en, or);
                m.put(&bits, or);
                safely("write integer", || leaf_write(&mut wr, &v, w, sg, dk(en), o, sz))
            }
            _ => {
                if s.chance(2, 3, "rest") || limit != u64::MAX {
                    log.push("rest".into());
                    let got = safely("rest", || wr.rest())?;
                    let want = m.rest();
                    let ok = got == want;
                    if !ok && !failed {
                        fail!("wrong rest", "rest gives {}, expected {}\nhistory {log:?}", bs(&got), bs(&want));
                    }
                    continue;
                }
                let (sk, f) = match s.draw(3, "where") {
                    0 => {
                        let p = s.draw(m.out.len() as u64 + 3, "to");
                        (Seek::Start(p), SeekFrom::Start(p))
                    }
                    1 => {
                        let d = s.draw(5, "to") as i64 - 2;
                        (Seek::Cur(d), SeekFrom::Current(d))
                    }
                    _ => (Seek::End(0), SeekFrom::End(0)),
                };
                log.push(format!("seek {f:?}"));
                seeked = true;
                let want = m.seek(&sk, &Env::default());
                let r = safely("seek", || wr.seek(f).map(|_| ()))?.map_err(|e| DekuError::Io(e.kind()));
                match (&r, &want) {
                    (Ok(_), Ok(_)) => {}
                    (Err(e), Err(x)) if errc(e) == *x => return Ok(true),
                    _ => fail!("wrong kind of error", "seek: {r:?}, expected {want:?}\nhistory {log:?}"),
                }
                Ok(Ok(()))
            }
        };
        let r = r.map_err(|b| Bad { detail: format!("{} {log:?}", b.detail), ..b })?;
        let should = m.out.len() as u64 > limit;
        match (&r, should) {
            (Ok(()), false) => {}
            (Err(DekuError::Io(k)), true) if format!("{k:?}") == kind => {
                failed = true;
                s.probe("failed");
                break;
            }
            _ => fail!(if r.is_ok() { "success although bytes were lost" } else { "wrong kind of error" }, "{r:?}, {} bytes written, failure at {limit}\nhistory {log:?}", m.out.len()),
        }
        if !seeked {
            let have = wr.bits_written as u64 + wr.rest().len() as u64;
            if have != m.bits {
                fail!("wrong position", "bits_written and rest make {have}, expected {}\nhistory {log:?}", m.bits);
            }
        }
    }
    if !failed {
        let r = safely("finalize", || wr.finalize()).map_err(|b| Bad { detail: format!("{} {log:?}", b.detail), ..b })?;
        m.finalize();
        let should = m.out.len() as u64 > limit;
        if r.is_err() != should {
            fail!("wrong kind of error", "finalize: {r:?}, {} bytes, failure at {limit}\nhistory {log:?}", m.out.len());
        }
    }
    drop(wr);
    let want = &m.out[..(m.out.len() as u64).min(limit) as usize];
    let ok = if failed { m.out.starts_with(&st.data) && st.data.len() as u64 == limit } else { st.data == want };
    if !ok {
        fail!("wrong bytes", "the sink holds {}, expected {} (failure at {limit})\nhistory {log:?}", hex(&st.data), hex(&m.out));
    }
    mix(s, &st.data);
    s.note(|| format!("{log:?}"));
    s.probe("write_history");
    Ok(log.len() > 1)
}

enum WOp {
    Bits(Vec<bool>, deku::ctx::Order),
    Bytes(Vec<u8>),
    Int(Val, u32, bool, En, Option<(bool, usize)>, deku::ctx::Order),
}

/// Both bit orders within one byte: what that means is not specified, but it
/// does not depend on the sink, and no bits appear or get lost.
fn mixed_write(s: &mut Sim) -> Res {
    use deku::bitvec::{BitVec, Msb0};
    use deku::ctx::Order;
    let mut ops = vec![];
    let mut log = vec![];
    let mut total = 0u64;
    for _ in 0..1 + s.draw(10, "ops") {
        let o = if s.draw(2, "order") == 0 { Order::Msb0 } else { Order::Lsb0 };
        match s.draw(4, "op") {
            0 | 1 => {
                let k = if s.chance(1, 2, "short") { s.draw(9, "n") } else { s.draw(40, "n") };
                let b: Vec<bool> = (0..k).map(|_| s.draw(2, "bit") == 1).collect();
                log.push(format!("write_bits {} {o:?}", bs(&b)));
                total += k;
                ops.push(WOp::Bits(b, o));
            }
            2 => {
                let b: Vec<u8> = (0..s.draw(5, "n")).map(|_| s.draw(256, "byte") as u8).collect();
                log.push(format!("write_bytes {}", hex(&b)));
                total += b.len() as u64 * 8;
                ops.push(WOp::Bytes(b));
            }
            _ => {
                let (w, sg, en, sz, nb) = pick_leafspec(s, o == Order::Lsb0);
                let hi = s.draw(u64::MAX, "v.hi") as u128;
                let u = s.draw(u64::MAX, "v.lo") as u128 | hi << 64;
                let u = u & if nb >= 128 { u128::MAX } else { (1 << nb) - 1 };
                let v = if sg { Val::I(sext(u, nb)) } else { Val::U(u) };
                log.push(format!("write {v:?} as {}{w} {en:?} {sz:?} {o:?}", if sg { 'i' } else { 'u' }));
                total += nb as u64;
                ops.push(WOp::Int(v, w, sg, en, sz, o));
            }
        }
    }
    let run = |st: &mut Stream| -> (Result<(), DekuError>, Vec<u64>) {
        let mut wr = Writer::new(st);
        let mut at = vec![];
        for op in &ops {
            let r = match op {
                WOp::Bits(b, o) => {
                    let bv: BitVec<u8, Msb0> = b.iter().collect();
                    wr.write_bits_order(&bv, *o)
                }
                WOp::Bytes(b) => wr.write_bytes(b),
                WOp::Int(v, w, sg, en, sz, o) => leaf_write(&mut wr, v, *w, *sg, dk(*en), *o, *sz),
            };
            if r.is_err() {
                return (r, at);
            }
            at.push(wr.bits_written as u64 + wr.rest().len() as u64);
        }
        (wr.finalize(), at)
    };
    let mut clean = stream(&s.w, "undisturbed", &[]);
    let (r0, at0) = safely("write", || run(&mut clean)).map_err(|b| Bad { detail: format!("{} {log:?}", b.detail), ..b })?;
    if r0.is_err() || at0.last().copied().unwrap_or(0) != total || clean.data.len() as u64 != total.div_ceil(8) {
        fail!("wrong position", "{total} bits written, {at0:?} counted, {} bytes: {r0:?}\nhistory {log:?}", clean.data.len());
    }
    let mut st = stream(&s.w, "out", &[]);
    st.policy = Policy::draw(&s.w);
    let mut limit = u64::MAX;
    let k = s.kind();
    if s.chance(1, 3, "fault") {
        limit = s.draw(clean.data.len() as u64 + 1, "fault.at");
        st.err = Some(At { off: limit, kind: k, times: u32::MAX });
    }
    let (r, at) = safely("write", || run(&mut st)).map_err(|b| Bad { detail: format!("{} {log:?}", b.detail), ..b })?;
    let should = (clean.data.len() as u64) > limit;
    let ok = match &r {
        Ok(()) => !should && st.data == clean.data && at == at0,
        Err(e) => should && *e == DekuError::Io(k) && st.data == clean.data[..limit as usize] && at0.starts_with(&at),
    };
    if !ok {
        fail!("wrong bytes", "{r:?}, the sink holds {}, an undisturbed one {} (failure with {k:?} at {limit}); counted {at:?} and {at0:?}\nhistory {log:?}", hex(&st.data), hex(&clean.data));
    }
    mix(s, &st.data);
    s.note(|| format!("{log:?}"));
    s.probe("mixed_orders");
    Ok(ops.len() > 1)
}
