//! Building blocks shared by the scenarios: one simulated run, message plans,
//! and drivers that send the same plan through the real library and through the
//! reference model.

use dcore::io::*;
use dcore::model::*;
use dcore::support::*;
use deku::reader::Reader;
use deku::writer::Writer;
use deku::DekuError;
use dgen::schema::*;
use std::cell::RefCell;
use std::collections::BTreeMap;

pub type Zoos = Vec<(Zoo, Vec<Ops>)>;

#[derive(Clone, Debug)]
pub struct Bad {
    /// what kind of failure; kept fixed while a run is minimised
    pub class: String,
    pub detail: String,
}
pub fn bad<T>(class: impl Into<String>, detail: impl Into<String>) -> Result<T, Bad> {
    Err(Bad { class: class.into(), detail: detail.into() })
}
#[macro_export]
macro_rules! fail {
    ($c:expr, $($a:tt)*) => { return $crate::sim::bad($c, format!($($a)*)) };
}
/// Ok(true): the run exercised what the property is about
pub type Res = Result<bool, Bad>;

pub struct Sim {
    pub w: Wd,
    pub zoos: &'static Zoos,
    pub probes: BTreeMap<&'static str, u64>,
}

impl Sim {
    pub fn draw(&self, n: u64, l: &'static str) -> u64 {
        self.w.draw(n, l)
    }
    pub fn chance(&self, a: u64, b: u64, l: &'static str) -> bool {
        self.w.chance(a, b, l)
    }
    pub fn probe(&mut self, p: &'static str) {
        *self.probes.entry(p).or_default() += 1;
    }
    pub fn note(&self, f: impl FnOnce() -> String) {
        self.w.borrow_mut().ev(1, f)
    }
    pub fn fault(&self, f: Fault) {
        self.w.borrow_mut().fault(f)
    }
    /// how often an operation fails: for good, or once
    pub fn times(&self) -> u32 {
        if self.w.chance(1, 3, "fault.once") {
            1
        } else {
            u32::MAX
        }
    }
    pub fn kind(&self) -> deku::no_std_io::ErrorKind {
        KINDS[self.draw(KINDS.len() as u64, "kind") as usize]
    }
}

thread_local! {
    static LAST: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn silence_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else if i.payload().is::<Injected>() {
            "injected".into()
        } else if i.payload().is::<Livelock>() {
            "livelock: the step budget is exhausted".into()
        } else if i.payload().is::<Deadlock>() {
            "deadlock: every party waits for another one".into()
        } else {
            "panic".into()
        };
        let loc = i.location().map(|l| l.file().rsplit('/').next().unwrap_or("").to_string()).unwrap_or_default();
        let _ = LAST.try_with(|l| *l.borrow_mut() = if m == "injected" || m.starts_with("livelock") || m.starts_with("deadlock") { m } else { format!("{m} ({loc})") });
    }));
}
/// run library code; a panic becomes Err(message)
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST.with(|l| l.borrow().clone())),
    }
}
/// as `guard`, but a panic is a failure of the run
pub fn safely<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Bad> {
    guard(f).map_err(|m| Bad {
        class: if m.starts_with("livelock") {
            "no progress".into()
        } else if m.starts_with("deadlock") {
            "deadlock".into()
        } else {
            "panic".into()
        },
        detail: format!("{what}: {m}"),
    })
}

// ---------------------------------------------------------------- plans

#[derive(Clone, Copy, Debug)]
pub struct M {
    pub di: usize,
    pub leaf: Leaf,
    pub n: i64,
}
impl M {
    pub fn ctx(&self) -> Ctx {
        Ctx {
            endian: if self.leaf.en == En::Le { deku::ctx::Endian::Little } else { deku::ctx::Endian::Big },
            order: if self.leaf.or == Or::Msb { deku::ctx::Order::Msb0 } else { deku::ctx::Order::Lsb0 },
            n: self.n as u8,
        }
    }
}

#[derive(Clone)]
pub struct Plan {
    pub zi: usize,
    pub msgs: Vec<M>,
    pub data: Vec<u8>,
    /// bit position after each message, in the uncorrupted data
    pub ends: Vec<u64>,
    pub vals: Vec<Val>,
}

fn pure_msb(d: &Def) -> bool {
    matches!(d.order, None | Some(Or::Msb)) && !matches!(d.ctx, CtxK::Order | CtxK::EndianOrder)
}

pub struct Want<'a> {
    pub filter: &'a dyn Fn(&Def) -> bool,
    pub max_msgs: u64,
    pub budget: i64,
}

/// Draws a type and a sequence of messages for one stream.
pub fn plan(s: &Sim, want: &Want) -> Option<Plan> {
    let zi = s.draw(s.zoos.len() as u64, "zoo") as usize;
    plan_in(s, zi, want)
}

/// Is the message the start of a fresh one only (cannot follow or be followed)?
pub fn alone(d: &Def) -> bool {
    d.greedy || d.seeky
}

pub fn plan_in(s: &Sim, zi: usize, want: &Want) -> Option<Plan> {
    let z: &Zoo = &s.zoos[zi].0;
    let c: Vec<usize> = z.defs.iter().filter(|d| (want.filter)(d)).map(|d| d.idx).collect();
    if c.is_empty() {
        return None;
    }
    let k = if want.max_msgs > 1 { 1 + s.draw(want.max_msgs, "msgs") } else { 1 };
    let mut p = Plan { zi, msgs: vec![], data: vec![], ends: vec![], vals: vec![] };
    let mut w = s.w.borrow_mut();
    let t = w.tape.as_mut().unwrap();
    let mut first = t.draw(c.len() as u64, "type") as usize;
    let same = t.draw(2, "same") == 0;
    let mut leaf = Leaf { en: En::Le, or: Or::Msb, bits: None, bytes: None };
    let mut n = 0;
    let mut picks = vec![];
    for i in 0..k {
        if i == 0 || !same {
            if i > 0 {
                first = t.draw(c.len() as u64, "type") as usize;
            }
            leaf.en = if t.draw(2, "ctx.endian") == 0 { En::Le } else { En::Be };
            leaf.or = if t.draw(2, "ctx.order") == 0 { Or::Msb } else { Or::Lsb };
            n = t.draw(4, "ctx.n") as i64;
        }
        picks.push(M { di: c[first], leaf, n });
    }
    let mut g = Dec::gen(z, t, want.budget);
    for (i, m) in picks.into_iter().enumerate() {
        let d = &z.defs[m.di];
        if i > 0 {
            let prev = &p.msgs[i - 1];
            let pd = &z.defs[prev.di];
            if alone(d) || alone(pd) {
                break;
            }
            if g.cur.a != g.cur.b {
                let same = m.di == prev.di && m.leaf.or == prev.leaf.or && eff(d, &m.leaf).1 == eff(pd, &prev.leaf).1;
                if d.need_align || !(same || (pure_msb(d) && p.msgs.iter().all(|x| pure_msb(&z.defs[x.di])))) {
                    break;
                }
            }
        }
        match g.def(m.di, &m.leaf, Some(m.n)) {
            Ok(v) => {
                p.vals.push(v);
            }
            Err(ErrC::Limit) => return None,
            Err(_) if i > 0 => break,
            Err(_) => {
                // a type whose drawn content violates its own assertions: fine as input
                p.vals.push(Val::N);
            }
        }
        p.msgs.push(m);
        p.ends.push(g.bits);
    }
    p.data = g.data.clone();
    drop(g);
    Some(p)
}

impl Plan {
    pub fn zoo(&self, s: &Sim) -> &'static Zoo {
        &s.zoos[self.zi].0
    }
    pub fn ops(&self, s: &Sim, i: usize) -> &'static Ops {
        &s.zoos[self.zi].1[self.msgs[i].di]
    }
    pub fn text(&self, s: &Sim) -> String {
        let mut o = format!("zoo {} messages: ", self.zi);
        for m in &self.msgs {
            o += &format!("T{} [{}] ctx({:?},{:?},n={}) ", m.di, s.zoos[self.zi].0.defs[m.di].tag, m.leaf.en, m.leaf.or, m.n);
        }
        o += &format!("stream {}", hex(&self.data));
        o
    }
    pub fn src(&self, s: &Sim) -> String {
        let z = &s.zoos[self.zi].0;
        let mut seen = vec![];
        for m in &self.msgs {
            if !seen.contains(&m.di) {
                seen.push(m.di);
            }
        }
        seen.iter().map(|i| dgen::emit::def(z, &z.defs[*i]).split("impl ToVal").next().unwrap().to_string()).collect()
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut o = String::new();
    for (i, x) in b.iter().enumerate() {
        if i == 400 {
            o += &format!("..({} bytes)", b.len());
            break;
        }
        o += &format!("{x:02x}");
    }
    o
}

/// mutate the stream content: returns true if it may differ
pub fn corrupt(s: &Sim, data: &mut Vec<u8>, rate: u64) -> bool {
    if rate == 0 || !s.chance(1, rate, "corrupt") {
        return false;
    }
    match s.draw(5, "corrupt.kind") {
        0 => {
            if !data.is_empty() {
                let n = 1 + s.draw(3, "flips");
                for _ in 0..n {
                    let i = s.draw(data.len() as u64 * 8, "flip") as usize;
                    data[i / 8] ^= 0x80 >> (i % 8);
                    s.fault(Fault::bit_flip);
                }
            }
        }
        1 => {
            let n = s.draw(data.len() as u64, "cut") as usize;
            data.truncate(n);
            s.fault(Fault::truncation);
        }
        2 => {
            let n = 1 + s.draw(12, "garbage");
            for _ in 0..n {
                let b = s.draw(256, "byte") as u8;
                data.push(b);
            }
            s.fault(Fault::trailing_garbage);
        }
        3 => {
            if !data.is_empty() {
                let i = s.draw(data.len() as u64, "at") as usize;
                let b = [0u8, 0xff, 0x7f, 0x80, 1][s.draw(5, "byte") as usize];
                data[i] = b;
                s.fault(Fault::hostile_bytes);
            }
        }
        _ => {
            let n = s.draw(24, "hostile.len");
            data.clear();
            for _ in 0..n {
                let b = s.draw(256, "byte") as u8;
                data.push(b);
            }
            s.fault(Fault::hostile_bytes);
        }
    }
    s.note(|| format!("stream content becomes {}", hex(data)));
    true
}

// ---------------------------------------------------------------- drivers

#[derive(Clone, Debug, PartialEq)]
pub struct Got {
    /// outcome of each message, up to and including the first failure
    pub vals: Vec<Result<Val, ErrC>>,
    /// bits consumed after each success
    pub bits: Vec<u64>,
}

impl Got {
    /// `self` is what the stream's failure leads to, `clean` the outcome without
    /// that failure.  A stream that is too short anyway may be reported as such
    /// before the failing read is attempted (its size can be asked for).
    pub fn accepts(&self, real: &Got, clean: &Got) -> bool {
        let n = self.vals.len();
        real == self
            || (n > 0
                && clean.vals.len() == n
                && matches!(self.vals[n - 1], Err(ErrC::Io(_)))
                && clean.vals[n - 1] == Err(ErrC::Incomplete)
                && real == clean)
    }
}

pub struct ModelGot {
    pub got: Got,
    /// bytes of the stream the format requires to be looked at
    pub touched: u64,
    /// elements of the drop-counted type constructed
    pub tracked: u64,
}

pub fn model_read(s: &Sim, p: &Plan, data: &[u8], tail: Tail) -> Option<ModelGot> {
    let z = p.zoo(s);
    let mut m = Dec::bytes(z, data, tail);
    let mut g = Got { vals: vec![], bits: vec![] };
    for x in &p.msgs {
        let r = m.def(x.di, &x.leaf, Some(x.n));
        if r == Err(ErrC::Limit) {
            return None;
        }
        let stop = r.is_err();
        g.vals.push(r);
        if stop {
            break;
        }
        g.bits.push(m.bits);
    }
    Some(ModelGot { got: g, touched: m.touched, tracked: m.tracked })
}

pub fn real_read(s: &Sim, p: &Plan, io: &mut dyn Rws) -> Got {
    let mut g = Got { vals: vec![], bits: vec![] };
    let mut rd = Reader::new(Io(io));
    for (i, m) in p.msgs.iter().enumerate() {
        let r = (p.ops(s, i).read)(&mut rd, m.ctx());
        let stop = r.is_err();
        g.vals.push(r.map_err(|e| errc(&e)));
        if stop {
            break;
        }
        g.bits.push(rd.bits_read as u64);
    }
    g
}

/// the concrete error of the failing message, with its payload
/// `asks`: before which messages the reader is asked for the end
pub fn real_read_err(s: &Sim, p: &Plan, asks: u64, io: &mut dyn Rws) -> Option<DekuError> {
    let mut rd = Reader::new(Io(io));
    for (i, m) in p.msgs.iter().enumerate() {
        if asks >> i & 1 == 1 {
            rd.end();
        }
        if let Err(e) = (p.ops(s, i).read)(&mut rd, m.ctx()) {
            return Some(e);
        }
    }
    None
}

#[derive(Clone, Debug, PartialEq)]
pub struct Put {
    pub res: Result<(), ErrC>,
    /// index of the message that failed (== msgs: finalize)
    pub at: usize,
    pub bits: u64,
}

pub fn model_write(z: &Zoo, msgs: &[M], vals: &[Val]) -> (Put, Vec<u8>, u64) {
    let mut e = Enc::new(z);
    for (i, m) in msgs.iter().enumerate() {
        if let Err(x) = e.def(m.di, &vals[i], &m.leaf, Some(m.n)) {
            let b = e.bits;
            return (Put { res: Err(x), at: i, bits: b }, e.out, b);
        }
    }
    let b = e.bits;
    e.finalize();
    let n = e.out.len() as u64 * 8;
    (Put { res: Ok(()), at: msgs.len(), bits: n }, e.out, b)
}

pub fn real_write(ops: &[Ops], msgs: &[M], vals: &[Val], io: &mut dyn Rws) -> Put {
    let mut wr = Writer::new(Io(io));
    for (i, m) in msgs.iter().enumerate() {
        if let Err(e) = (ops[m.di].write)(&mut wr, &vals[i], m.ctx()) {
            return Put { res: Err(errc(&e)), at: i, bits: wr.bits_written as u64 };
        }
    }
    let r = wr.finalize();
    Put { res: r.map_err(|e| errc(&e)), at: msgs.len(), bits: wr.bits_written as u64 }
}

/// Values that the format can represent: what the model decodes from generated
/// bytes, and which the model's own encoding reproduces.
pub fn stable_vals(s: &Sim, p: &Plan) -> Option<(Vec<Val>, Vec<u8>)> {
    let g = model_read(s, p, &p.data, Tail::Eof)?;
    let mut vals = vec![];
    for v in &g.got.vals {
        match v {
            Ok(v) => vals.push(v.clone()),
            Err(_) => return None,
        }
    }
    let z = p.zoo(s);
    let (r, out, bits) = model_write(z, &p.msgs, &vals);
    if r.res.is_err() {
        return None;
    }
    let g2 = model_read(s, p, &out, Tail::Eof)?;
    // everything written belongs to what is read (not so with skip(read) or skip(write))
    let same = g2.got.bits.last() == Some(&bits) && g2.got.vals.len() == vals.len() && g2.got.vals.iter().zip(&vals).all(|(a, b)| a.as_ref() == Ok(b));
    if same {
        Some((vals, out))
    } else {
        None
    }
}
