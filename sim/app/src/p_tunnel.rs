//! A protocol inside another one: the stream or sink of the messages is itself
//! made of deku messages (frames), and an error of the outer layer comes back
//! to the inner one as the `io::Error` a `DekuError` converts to.  Frame
//! streams that fail, end, or are corrupted.

use crate::fail;
use crate::p_read::{case, diff_class};
use crate::p_write::{unordered, wvals};
use crate::sim::*;
use dcore::io::*;
use dcore::model::*;
use deku::ctx::Order;
use deku::no_std_io::{ErrorKind, Read, Result as IoResult, SeekFrom, Write};
use deku::noseek::NoSeek;
use deku::prelude::*;
use deku::reader::Reader;
use deku::writer::Writer;
use dgen::schema::*;

#[derive(DekuRead, DekuWrite, Debug, PartialEq)]
#[deku(magic = b"\xa5F", endian = "big")]
struct Head {
    kind: Kind,
    #[deku(assert = "*n > 0 && *n <= 64")]
    n: u16,
}
#[derive(DekuRead, DekuWrite, Debug, PartialEq)]
#[deku(id_type = "u8", endian = "endian", ctx = "endian: deku::ctx::Endian")]
enum Kind {
    #[deku(id = 1)]
    Data,
    #[deku(id = "0x80")]
    Urgent,
}
const HEAD: usize = 5;

/// reading end: everything goes through one frame at a time
struct TunnelR<R: Read> {
    inner: Option<NoSeek<R>>,
    buf: Vec<u8>,
    pos: usize,
    /// how the frames were left
    last: String,
}
impl<R: Read> TunnelR<R> {
    fn frame(&mut self) -> IoResult<bool> {
        let mut rd = Reader::new(self.inner.take().unwrap());
        let r = Self::one(&mut rd, &mut self.buf, &mut self.last);
        self.pos = 0;
        self.inner = Some(rd.into_inner());
        r
    }
    fn one(rd: &mut Reader<NoSeek<R>>, buf: &mut Vec<u8>, last: &mut String) -> IoResult<bool> {
        buf.clear();
        if rd.end() {
            return Ok(false);
        }
        let r = Head::from_reader_with_ctx(rd, ()).and_then(|h| {
            let mut b = vec![0; h.n as usize];
            rd.read_bytes(b.len(), &mut b, Order::Msb0)?;
            Ok(b)
        });
        match r {
            Ok(b) => {
                *buf = b;
                Ok(true)
            }
            Err(e) => {
                *last = format!("{e}");
                // the conversion a user gets from `?`
                Err(e)?
            }
        }
    }
}
impl<R: Read> Rws for TunnelR<R> {
    fn r(&mut self, b: &mut [u8]) -> IoResult<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.pos == self.buf.len() && !self.frame()? {
            return Ok(0);
        }
        let n = b.len().min(self.buf.len() - self.pos);
        b[..n].copy_from_slice(&self.buf[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
    fn wr(&mut self, _: &[u8]) -> IoResult<usize> {
        Err(ErrorKind::Unsupported.into())
    }
    fn fl(&mut self) -> IoResult<()> {
        Ok(())
    }
    fn sk(&mut self, _: SeekFrom) -> IoResult<u64> {
        Err(ErrorKind::Unsupported.into())
    }
}

/// writing end: a frame for every write, none longer than `max`
struct TunnelW<W: Write> {
    inner: NoSeek<W>,
    max: usize,
}
impl<W: Write> TunnelW<W> {
    fn one(w: &mut Writer<&mut NoSeek<W>>, b: &[u8]) -> Result<(), DekuError> {
        let h = Head { kind: if b.len() % 2 == 0 { Kind::Urgent } else { Kind::Data }, n: b.len() as u16 };
        h.to_writer(w, ())?;
        // borrowed, without a copy
        b.to_writer(w, ())?;
        w.finalize()
    }
}
impl<W: Write> Rws for TunnelW<W> {
    fn r(&mut self, _: &mut [u8]) -> IoResult<usize> {
        Err(ErrorKind::Unsupported.into())
    }
    fn wr(&mut self, b: &[u8]) -> IoResult<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let n = b.len().min(self.max);
        Self::one(&mut Writer::new(&mut self.inner), &b[..n])?;
        Ok(n)
    }
    fn fl(&mut self) -> IoResult<()> {
        self.inner.flush()
    }
    fn sk(&mut self, _: SeekFrom) -> IoResult<u64> {
        Err(ErrorKind::Unsupported.into())
    }
}

fn put_frame(out: &mut Vec<u8>, kind: u8, b: &[u8]) {
    out.extend([0xa5, b'F', kind]);
    out.extend((b.len() as u16).to_be_bytes());
    out.extend(b);
}

/// what the complete frames carry, and where the first that is not one begins
fn unframe(mut b: &[u8]) -> (Vec<u8>, usize) {
    let mut out = vec![];
    let mut at = 0;
    while b.len() >= HEAD {
        let n = u16::from_be_bytes([b[3], b[4]]) as usize;
        if b[0] != 0xa5 || b[1] != b'F' || !matches!(b[2], 1 | 0x80) || n == 0 || n > 64 || b.len() < HEAD + n {
            break;
        }
        out.extend(&b[HEAD..HEAD + n]);
        b = &b[HEAD + n..];
        at += HEAD + n;
    }
    (out, at)
}

pub fn tunnel_read(s: &mut Sim) -> Res {
    let Some(c) = case(s, &|d: &Def| !d.seeky, 3, 8) else { return Ok(false) };
    // frames of drawn sizes
    let mut wire = vec![];
    let mut starts = vec![];
    let mut i = 0;
    let max = [1, 3, 8, 64][s.draw(4, "frame.max") as usize];
    while i < c.data.len() {
        let n = (1 + s.draw(max, "frame") as usize).min(c.data.len() - i);
        starts.push((wire.len(), i));
        put_frame(&mut wire, if s.chance(1, 3, "frame.kind") { 0x80 } else { 1 }, &c.data[i..i + n]);
        i += n;
    }
    let mut st = stream(&s.w, "frames", &wire);
    st.policy = Policy::draw(&s.w);
    st.seekable = false;
    let cut = |off: usize| starts.iter().rev().find(|(w, _)| *w < off || *w == 0).map_or(0, |_| unframe(&wire[..off.min(wire.len())]).0.len());
    let what = s.draw(4, "frame.fault");
    let k = s.kind();
    let (avail, tail) = match what {
        0 => (c.data.len(), Tail::Eof),
        1 => {
            let off = s.draw(wire.len() as u64 + 1, "fault.at");
            st.err = Some(At { off, kind: k, times: u32::MAX });
            (cut(off as usize), Tail::Err(format!("{k:?}")))
        }
        2 => {
            let off = s.draw(wire.len() as u64 + 1, "cut.at") as usize;
            st.data.truncate(off);
            s.fault(Fault::truncation);
            (cut(off), Tail::Eof)
        }
        _ if !starts.is_empty() => {
            let (w, d) = starts[s.draw(starts.len() as u64, "frame.which") as usize];
            match s.draw(4, "frame.damage") {
                0 => st.data[w] ^= 1,
                1 => st.data[w + 2] = 7,
                2 => st.data[w + 4] = 0,
                _ => st.data[w + 3] = 0xff,
            }
            s.fault(Fault::bit_flip);
            (d, Tail::Err("InvalidData".into()))
        }
        _ => (0, Tail::Eof),
    };
    // a frame that the end of the stream cuts off is the end of the messages' stream too
    let name = match &tail {
        Tail::Err(n) => n.clone(),
        _ => String::new(),
    };
    let Some(want) = model_read(s, &c.p, &c.data[..avail], tail) else { return Ok(false) };
    let mut tun = TunnelR { inner: Some(NoSeek::new(st)), buf: vec![], pos: 0, last: String::new() };
    let mut got = safely("read through frames", || real_read(s, &c.p, &mut tun))?;
    let mut ns = tun.inner.take().unwrap();
    let (at, pos) = {
        use deku::no_std_io::Seek;
        let p = ns.stream_position().unwrap();
        (p, ns.get_mut().pos)
    };
    let st = ns.into_inner();
    let want = want.got;
    let d = || format!("{} bytes in frames of up to {max}, fault {what} ({name}): {avail} bytes arrive\nframes {}\n{}\n{}", c.data.len(), hex(&st.data), c.p.text(s), c.p.src(s));
    if at != pos {
        fail!("wrong position", "NoSeek says {at}, {pos} bytes were read\n{}", d());
    }
    // a frame that ends early is the end of the stream for the messages in it
    if let Some(Err(ErrC::Io(x))) = got.vals.last() {
        if what == 2 && *x == "UnexpectedEof" {
            *got.vals.last_mut().unwrap() = Err(ErrC::Incomplete);
        }
    }
    let early = matches!(got.vals.last(), Some(Err(ErrC::Io(x))) if *x == name) && matches!(want.vals.last(), Some(Err(ErrC::Parse | ErrC::Assertion))) && got.vals[..got.vals.len() - 1] == want.vals[..want.vals.len() - 1];
    // an element that would begin where a frame is cut off: the end, or a failure
    let at_cut = what == 2 && want.vals.len() == got.vals.len() && got.vals.last() == Some(&Err(ErrC::Incomplete)) && c.p.msgs.get(got.vals.len() - 1).is_some_and(|m| c.p.zoo(s).defs[m.di].greedy);
    if got != want && !early && !at_cut {
        fail!(diff_class(&got, &want), "got {got:?}, expected {want:?}\n{}", d());
    }
    if what == 3 && matches!(want.vals.last(), Some(Err(ErrC::Io(_)))) && tun.last.is_empty() {
        fail!("error without a message", "{}", d());
    }
    s.probe("read_through_frames");
    Ok(matches!(want.vals.last(), Some(Err(ErrC::Io(_)))))
}

pub fn tunnel_write(s: &mut Sim) -> Res {
    let Some((p, vals)) = wvals(s, &|d: &Def| !d.seeky, 3, 1) else { return Ok(false) };
    let z = p.zoo(s);
    let (want, out, _) = model_write(z, &p.msgs, &vals);
    let loose = unordered(s, &p);
    let mut st = stream(&s.w, "frames", &[]);
    st.policy = Policy::draw(&s.w);
    st.seekable = false;
    let k = s.kind();
    let max = [1usize, 3, 8, 64][s.draw(4, "frame.max") as usize];
    let off = s.draw((out.len() * (HEAD + 1)) as u64 + 1, "fault.at");
    let name = match s.draw(3, "fault.kind") {
        0 => {
            st.cap = Some(off);
            st.full_kind = k;
            format!("{k:?}")
        }
        1 => {
            st.cap = Some(off);
            st.full_zero = true;
            "WriteZero".into()
        }
        _ => {
            st.err = Some(At { off, kind: k, times: u32::MAX });
            format!("{k:?}")
        }
    };
    let mut tun = TunnelW { inner: NoSeek::new(st), max };
    let put = safely("write through frames", || real_write(&s.zoos[p.zi].1, &p.msgs, &vals, &mut tun))?;
    let st = tun.inner.into_inner();
    let d = || format!("frames of up to {max}, the sink fails with {name} at byte {off}: {put:?}\nthe sink holds {}\nvalues {vals:?}\n{}\n{}", hex(&st.data), p.text(s), p.src(s));
    let (got, at) = unframe(&st.data);
    let fired = st.errors > 0;
    match (&put.res, fired) {
        (Err(ErrC::Io(x)), true) if *x == name => {}
        (r, false) if *r == want.res => {}
        (Ok(()), true) => fail!("success although bytes were lost", "{}", d()),
        _ => fail!("wrong kind of error", "expected {:?}\n{}", want.res, d()),
    }
    if !loose && !out.starts_with(&got) {
        fail!("wrong bytes", "the frames carry {}, the messages are {}\n{}", hex(&got), hex(&out), d());
    }
    if put.res.is_ok() && (got.len() != out.len() || at != st.data.len()) {
        fail!("success although bytes were lost", "the frames carry {} of {} bytes\n{}", got.len(), out.len(), d());
    }
    s.probe("written_through_frames");
    Ok(fired)
}
