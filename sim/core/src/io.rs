//! Simulated world: the choice tape, the simulated clock, the event log and
//! the simulated streams through which all library I/O goes.

use crate::tape::Tape;
use deku::no_std_io::{Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};
use std::sync::{Arc, Mutex, MutexGuard};

/// payload of injected panics
#[derive(Debug)]
pub struct Injected;
/// payload: the run exceeded its step budget (no progress)
#[derive(Debug)]
pub struct Livelock;
/// payload: every task of the simulation waits for another one
#[derive(Debug)]
pub struct Deadlock;

pub const KINDS: &[ErrorKind] = &[
    ErrorKind::ConnectionReset,
    ErrorKind::TimedOut,
    ErrorKind::WouldBlock,
    ErrorKind::PermissionDenied,
    ErrorKind::Other,
    ErrorKind::InvalidData,
    ErrorKind::BrokenPipe,
    ErrorKind::NotConnected,
    ErrorKind::ConnectionAborted,
    ErrorKind::InvalidInput,
    ErrorKind::AddrInUse,
    ErrorKind::NotFound,
];

macro_rules! faults {
    ($($n:ident),*) => {
        #[allow(non_camel_case_types)]
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        pub enum Fault { $($n),* }
        pub const FAULT_NAMES: &[&str] = &[$(stringify!($n)),*];
    };
}
faults!(
    short_read, short_write, interrupted_read, interrupted_write, read_error, write_error, truncation, bit_flip,
    disk_full, zero_write, seek_error, flush_error, latency, injected_panic, crash, torn_write, lost_write,
    duplicate, reorder, stall, trailing_garbage, hostile_bytes, dropped, clock_jump
);

#[derive(Default)]
pub struct World {
    pub tape: Option<Tape>,
    pub now: u64,
    pub keep: bool,
    pub trace: Vec<String>,
    pub hash: u64,
    pub faults: Vec<u64>,
    pub ops: u64,
    pub budget: u64,
}

/// Handle to the world.  Only one simulated task runs at any time, so the lock
/// is never contended.
#[derive(Clone)]
pub struct Wd(Arc<Mutex<World>>);
impl Wd {
    pub fn borrow_mut(&self) -> MutexGuard<'_, World> {
        match self.0.lock() {
            Ok(g) => g,
            Err(e) => e.into_inner(),
        }
    }
    pub fn draw(&self, n: u64, l: &'static str) -> u64 {
        self.borrow_mut().draw(n, l)
    }
    pub fn chance(&self, a: u64, b: u64, l: &'static str) -> bool {
        self.borrow_mut().chance(a, b, l)
    }
}

pub fn world(tape: Tape, keep: bool) -> Wd {
    Wd(Arc::new(Mutex::new(World {
        tape: Some(tape),
        keep,
        faults: vec![0; FAULT_NAMES.len()],
        hash: 0xcbf29ce484222325,
        budget: 2_000_000,
        ..Default::default()
    })))
}

impl World {
    pub fn draw(&mut self, n: u64, l: &'static str) -> u64 {
        self.tape.as_mut().unwrap().draw(n, l)
    }
    pub fn chance(&mut self, a: u64, b: u64, l: &'static str) -> bool {
        self.tape.as_mut().unwrap().chance(a, b, l)
    }
    pub fn mix(&mut self, v: u64) {
        self.hash = (self.hash ^ v).wrapping_mul(0x100_0000_01b3).rotate_left(23);
    }
    pub fn ev(&mut self, code: u64, f: impl FnOnce() -> String) {
        self.mix(code);
        if self.keep && self.trace.len() < 4000 {
            let t = self.now;
            self.trace.push(format!("t={t}us {}", f()));
        }
    }
    pub fn fault(&mut self, f: Fault) {
        self.faults[f as usize] += 1;
    }
    pub fn step(&mut self) {
        self.ops += 1;
        if self.ops > self.budget {
            std::panic::panic_any(Livelock);
        }
    }
}

/// How a simulated stream misbehaves.  Everything off: an ordinary file.
#[derive(Clone, Debug, Default)]
pub struct Policy {
    /// 0: full transfers; otherwise one op in `short` is cut short
    pub short: u64,
    /// longest transfer when cut
    pub max_chunk: u64,
    /// one op in `intr` reports Interrupted first
    pub intr: u64,
    /// largest latency per op in simulated microseconds
    pub latency: u64,
}
impl Policy {
    pub fn calm() -> Policy {
        Policy::default()
    }
    /// drawn from the tape
    pub fn draw(w: &Wd) -> Policy {
        let mut w = w.borrow_mut();
        let mode = w.draw(5, "policy");
        match mode {
            0 => Policy::default(),
            1 => Policy { short: 1, max_chunk: 1, intr: 0, latency: 0 },
            2 => Policy { short: 2, max_chunk: 1 + w.draw(8, "policy.chunk"), intr: 0, latency: 50 },
            3 => Policy { short: 2, max_chunk: 1 + w.draw(64, "policy.chunk"), intr: 3, latency: 1000 },
            _ => Policy { short: 0, max_chunk: 0, intr: 2, latency: 10 },
        }
    }
    pub fn is_calm(&self) -> bool {
        self.short == 0 && self.intr == 0
    }
}

/// error at a byte offset
#[derive(Clone, Debug)]
pub struct At {
    pub off: u64,
    pub kind: ErrorKind,
    /// how many operations fail (u32::MAX: all)
    pub times: u32,
}

pub struct Stream {
    pub w: Wd,
    pub id: &'static str,
    pub data: Vec<u8>,
    pub pos: u64,
    pub policy: Policy,
    pub err: Option<At>,
    /// capacity for writes: beyond it `full` happens
    pub cap: Option<u64>,
    /// Ok(0) instead of an error when full
    pub full_zero: bool,
    pub full_kind: ErrorKind,
    pub seekable: bool,
    pub seek_err: Option<ErrorKind>,
    /// highest offset handed out (reads), plus one
    pub delivered: u64,
    /// read attempts at the end of the data
    pub eof_reads: u64,
    pub seeks: u64,
    pub reads: u64,
    pub writes: u64,
    pub flushes: u64,
    pub flush_err: Option<ErrorKind>,
    pub errors: u64,
    /// order of bytes accepted
    pub accepted: u64,
    /// what was seen after the first failure
    pub ops_after_error: u64,
    /// reading this byte panics
    pub panic_at: Option<u64>,
    /// record events
    pub trace: bool,
}

pub fn stream(w: &Wd, id: &'static str, data: &[u8]) -> Stream {
    Stream {
        w: w.clone(),
        id,
        data: data.to_vec(),
        pos: 0,
        policy: Policy::calm(),
        err: None,
        cap: None,
        full_zero: false,
        full_kind: ErrorKind::Other,
        seekable: true,
        seek_err: None,
        delivered: 0,
        eof_reads: 0,
        seeks: 0,
        reads: 0,
        writes: 0,
        flushes: 0,
        flush_err: None,
        errors: 0,
        accepted: 0,
        ops_after_error: 0,
        panic_at: None,
        trace: true,
    }
}

impl Stream {
    fn pre(&mut self, want: usize, write: bool) -> Result<usize> {
        if self.errors > 0 {
            self.ops_after_error += 1;
        }
        let mut w = self.w.borrow_mut();
        w.step();
        if self.policy.latency > 0 {
            let d = w.draw(self.policy.latency, "latency");
            w.now += d;
            if d > 0 {
                w.fault(Fault::latency);
            }
        }
        if self.policy.intr > 0 && w.chance(1, self.policy.intr, "intr") {
            w.fault(if write { Fault::interrupted_write } else { Fault::interrupted_read });
            let id = self.id;
            w.ev(7, || format!("{id}: {} interrupted", if write { "write" } else { "read" }));
            return Err(Error::from(ErrorKind::Interrupted));
        }
        let mut n = want;
        if self.policy.short > 0 && want > 1 && w.chance(1, self.policy.short, "short") {
            let m = (self.policy.max_chunk as usize).min(want - 1).max(1);
            n = 1 + w.draw(m as u64, "chunk") as usize;
            if n < want {
                w.fault(if write { Fault::short_write } else { Fault::short_read });
            }
        }
        Ok(n)
    }
    fn check_err(&mut self, pos: u64, n: usize) -> std::result::Result<usize, ErrorKind> {
        if let Some(e) = &mut self.err {
            if e.times > 0 {
                if pos == e.off || (pos > e.off && e.times == u32::MAX) {
                    if e.times != u32::MAX {
                        e.times -= 1;
                    }
                    return Err(e.kind);
                }
                if pos < e.off && pos + n as u64 > e.off {
                    return Ok((e.off - pos) as usize);
                }
            }
        }
        Ok(n)
    }
}

impl Read for Stream {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.reads += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        let n = self.pre(buf.len(), false)?;
        let n = match self.check_err(self.pos, n) {
            Ok(n) => n,
            Err(k) => {
                self.errors += 1;
                let (id, pos) = (self.id, self.pos);
                let mut w = self.w.borrow_mut();
                w.fault(Fault::read_error);
                w.ev(11, || format!("{id}: read at {pos} fails with {k:?}"));
                return Err(Error::from(k));
            }
        };
        let left = (self.data.len() as u64).saturating_sub(self.pos) as usize;
        let mut m = n.min(left);
        if let Some(p) = self.panic_at {
            if self.pos >= p {
                self.panic_at = None;
                std::panic::panic_any(Injected);
            }
            m = m.min((p - self.pos) as usize);
        }
        let (id, pos, want) = (self.id, self.pos, buf.len());
        if m == 0 {
            self.eof_reads += 1;
            self.w.borrow_mut().ev(13, || format!("{id}: read {want} at {pos}: end of stream"));
            return Ok(0);
        }
        buf[..m].copy_from_slice(&self.data[self.pos as usize..self.pos as usize + m]);
        self.pos += m as u64;
        self.delivered = self.delivered.max(self.pos);
        if self.trace {
            self.w.borrow_mut().ev(100 + m as u64, || format!("{id}: read {want} at {pos}: {m} bytes"));
        }
        Ok(m)
    }
}

impl Write for Stream {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        self.writes += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        let n = self.pre(buf.len(), true)?;
        let n = match self.check_err(self.pos, n) {
            Ok(n) => n,
            Err(k) => {
                self.errors += 1;
                let (id, pos) = (self.id, self.pos);
                let mut w = self.w.borrow_mut();
                w.fault(Fault::write_error);
                w.ev(17, || format!("{id}: write at {pos} fails with {k:?}"));
                return Err(Error::from(k));
            }
        };
        let mut n = n;
        if let Some(c) = self.cap {
            if self.pos >= c {
                self.errors += 1;
                let (id, pos, z, k) = (self.id, self.pos, self.full_zero, self.full_kind);
                let mut w = self.w.borrow_mut();
                w.fault(if z { Fault::zero_write } else { Fault::disk_full });
                w.ev(19, || format!("{id}: write at {pos}: full ({})", if z { "0 bytes".into() } else { format!("{k:?}") }));
                return if z { Ok(0) } else { Err(Error::from(k)) };
            }
            n = n.min((c - self.pos) as usize);
        }
        let end = self.pos as usize + n;
        if self.data.len() < end {
            self.data.resize(end, 0);
        }
        self.data[self.pos as usize..end].copy_from_slice(&buf[..n]);
        let (id, pos, want) = (self.id, self.pos, buf.len());
        self.pos += n as u64;
        self.accepted += n as u64;
        self.w.borrow_mut().ev(1000 + n as u64, || format!("{id}: write {want} at {pos}: {n} bytes accepted"));
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        self.flushes += 1;
        if let Some(k) = self.flush_err {
            self.w.borrow_mut().fault(Fault::flush_error);
            return Err(Error::from(k));
        }
        Ok(())
    }
}

impl Seek for Stream {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        self.seeks += 1;
        let id = self.id;
        self.w.borrow_mut().step();
        if !self.seekable {
            self.w.borrow_mut().ev(23, || format!("{id}: seek {p:?}: not seekable"));
            return Err(Error::from(ErrorKind::Other));
        }
        if let Some(k) = self.seek_err {
            self.errors += 1;
            let mut w = self.w.borrow_mut();
            w.fault(Fault::seek_error);
            w.ev(29, || format!("{id}: seek {p:?} fails with {k:?}"));
            return Err(Error::from(k));
        }
        let np = match p {
            SeekFrom::Start(s) => s as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
            SeekFrom::End(d) => self.data.len() as i128 + d as i128,
        };
        if np < 0 || np > u64::MAX as i128 {
            return Err(Error::from(ErrorKind::InvalidInput));
        }
        self.pos = np as u64;
        self.w.borrow_mut().ev(31, || format!("{id}: seek {p:?} -> {np}"));
        Ok(np as u64)
    }
}

pub trait Rws {
    fn r(&mut self, b: &mut [u8]) -> Result<usize>;
    fn wr(&mut self, b: &[u8]) -> Result<usize>;
    fn fl(&mut self) -> Result<()>;
    fn sk(&mut self, p: SeekFrom) -> Result<u64>;
}
impl Rws for Stream {
    fn r(&mut self, b: &mut [u8]) -> Result<usize> {
        self.read(b)
    }
    fn wr(&mut self, b: &[u8]) -> Result<usize> {
        self.write(b)
    }
    fn fl(&mut self) -> Result<()> {
        self.flush()
    }
    fn sk(&mut self, p: SeekFrom) -> Result<u64> {
        self.seek(p)
    }
}
/// deku's own adapter for streams that cannot seek
pub struct Ns<T>(pub deku::noseek::NoSeek<T>);
impl<T: Read + Write> Rws for Ns<T> {
    fn r(&mut self, b: &mut [u8]) -> Result<usize> {
        self.0.read(b)
    }
    fn wr(&mut self, b: &[u8]) -> Result<usize> {
        self.0.write(b)
    }
    fn fl(&mut self) -> Result<()> {
        self.0.flush()
    }
    fn sk(&mut self, p: SeekFrom) -> Result<u64> {
        self.0.seek(p)
    }
}

/// the one concrete stream type the generated code is instantiated with
pub struct Io<'a>(pub &'a mut dyn Rws);
impl Read for Io<'_> {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        self.0.r(b)
    }
}
impl Write for Io<'_> {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        self.0.wr(b)
    }
    fn flush(&mut self) -> Result<()> {
        self.0.fl()
    }
}
impl Seek for Io<'_> {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        self.0.sk(p)
    }
}
