//! Executable reference model: interprets a `Def` directly on bits.
//! Independent of deku: it shares no code with it.
//! The same interpreter decodes given bytes (`Mode::Bytes`) and generates valid
//! messages (`Mode::Gen`: bits that nobody has fixed yet are chosen on demand).

use dgen::schema::*;
use crate::tape::Tape;

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Val {
    N,
    B(bool),
    U(u128),
    I(i128),
    /// float bits
    F(u64),
    Y(Vec<u8>),
    /// list, tuple, struct
    L(Vec<Val>),
    /// enum variant
    E(usize, Vec<Val>),
    S(Box<Val>),
    /// map, sorted
    M(Vec<(Val, Val)>),
    /// set, sorted
    Set(Vec<Val>),
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum ErrC {
    Incomplete,
    Parse,
    InvalidParam,
    Assertion,
    IdNotFound,
    Io(String),
    Panic(String),
    /// model gave up (not a verdict)
    Limit,
}

/// What the stream does once `data` is exhausted
#[derive(Clone, PartialEq, Debug)]
pub enum Tail {
    Eof,
    Err(String),
}

#[derive(Clone)]
pub struct Cursor {
    /// next whole byte
    pub pos: u64,
    /// unread bits of byte `pos-1`: [a, b) counted from the most significant
    pub a: u32,
    pub b: u32,
    /// leftover byte is only looked at, not consumed
    pub look: bool,
}

pub enum Mode<'t> {
    Bytes { tail: Tail },
    Gen { tape: &'t mut Tape, known: Vec<u8>, sealed: bool, budget: i64 },
}

pub struct Dec<'z, 't> {
    pub z: &'z Zoo,
    pub data: Vec<u8>,
    pub cur: Cursor,
    pub bits: u64,
    /// highest byte offset looked at, plus one
    pub touched: u64,
    pub mode: Mode<'t>,
    pub steps: u64,
    /// elements constructed of the drop-counted type
    pub tracked: u64,
    /// every seek fails with this kind
    pub seek_err: Option<String>,
    /// how many seeks the format asked for
    pub seeks: u64,
    /// the stream fails at this byte and behind it
    pub err_at: Option<(u64, String)>,
    /// the stream cannot seek: staying in place is all it can do
    pub noseek: bool,
    /// gave up because elements overshot their announced size
    pub over: bool,
}

#[derive(Clone, Copy, Debug)]
pub struct Leaf {
    pub en: En,
    pub or: Or,
    pub bits: Option<u32>,
    pub bytes: Option<u32>,
}

type R<T> = Result<T, ErrC>;

fn maskn(n: u32) -> u128 {
    if n >= 128 {
        u128::MAX
    } else {
        (1u128 << n) - 1
    }
}

/// The bits of an n-bit number in the order in which they are put on the wire.
pub fn int_bits(v: u128, n: u32, en: En, or: Or) -> Vec<bool> {
    let mut out = Vec::with_capacity(n as usize);
    match (or, en) {
        (Or::Msb, En::Be) => {
            for i in (0..n).rev() {
                out.push(v >> i & 1 == 1);
            }
        }
        (Or::Msb, En::Le) => {
            let full = n / 8;
            for k in 0..full {
                for i in (0..8).rev() {
                    out.push(v >> (k * 8 + i) & 1 == 1);
                }
            }
            for i in (0..n % 8).rev() {
                out.push(v >> (full * 8 + i) & 1 == 1);
            }
        }
        (Or::Lsb, En::Le) => {
            for i in 0..n {
                out.push(v >> i & 1 == 1);
            }
        }
        (Or::Lsb, En::Be) => {
            if n <= 8 {
                for i in 0..n {
                    out.push(v >> i & 1 == 1);
                }
            } else {
                // n is a multiple of 8 (see DESIGN: known finding)
                for k in (0..n / 8).rev() {
                    for i in 0..8 {
                        out.push(v >> (k * 8 + i) & 1 == 1);
                    }
                }
            }
        }
    }
    out
}

pub fn bits_int(b: &[bool], en: En, or: Or) -> u128 {
    let n = b.len() as u32;
    let mut v = 0u128;
    // inverse of int_bits, via the position of each bit
    match (or, en) {
        (Or::Msb, En::Be) => {
            for (i, x) in b.iter().enumerate() {
                v |= (*x as u128) << (n - 1 - i as u32);
            }
        }
        (Or::Msb, En::Le) => {
            let full = n / 8;
            for (i, x) in b.iter().enumerate() {
                let i = i as u32;
                let k = i / 8;
                let w = if k < full { 8 } else { n % 8 };
                v |= (*x as u128) << (k * 8 + (w - 1 - i % 8));
            }
        }
        (Or::Lsb, En::Le) => {
            for (i, x) in b.iter().enumerate() {
                v |= (*x as u128) << i;
            }
        }
        (Or::Lsb, En::Be) => {
            if n <= 8 {
                for (i, x) in b.iter().enumerate() {
                    v |= (*x as u128) << i;
                }
            } else {
                for (i, x) in b.iter().enumerate() {
                    let i = i as u32;
                    v |= (*x as u128) << ((n / 8 - 1 - i / 8) * 8 + i % 8);
                }
            }
        }
    }
    v
}

pub fn sext(v: u128, n: u32) -> i128 {
    if n == 0 {
        return 0;
    }
    let sh = 128 - n;
    ((v << sh) as i128) >> sh
}

#[derive(Clone, Default)]
pub struct Env {
    pub f: Vec<Option<Val>>,
    pub n: Option<i64>,
    /// bits read or written so far
    pub bits: u64,
}

pub fn as_i(v: &Val) -> i64 {
    match v {
        Val::U(u) => (*u).min(i64::MAX as u128) as i64,
        Val::I(i) => (*i).clamp(i64::MIN as i128, i64::MAX as i128) as i64,
        Val::B(b) => *b as i64,
        _ => panic!("model: not a number: {v:?}"),
    }
}

/// what a count evaluates to: a field named there is used as it is
pub fn eval_count(e: &Ex, env: &Env) -> i64 {
    match e {
        Ex::F(i) => as_i(env.f[*i].as_ref().expect("model: field not available")),
        e => eval(e, env),
    }
}

/// what an expression evaluates to: the fields in it are cast to i64
pub fn eval(e: &Ex, env: &Env) -> i64 {
    match e {
        Ex::C(c) => *c,
        Ex::F(i) => match env.f[*i].as_ref().expect("model: field not available") {
            Val::U(u) => *u as i64,
            Val::I(i) => *i as i64,
            v => as_i(v),
        },
        Ex::N => env.n.expect("model: no ctx"),
        Ex::ByteOff => (env.bits / 8) as i64,
        Ex::BitOff => env.bits as i64,
        Ex::And(a, k) => eval(a, env) & k,
        Ex::Mul(a, k) => eval(a, env).saturating_mul(*k),
        Ex::Add(a, k) => eval(a, env).saturating_add(*k),
        Ex::Eq(a, k) => (eval(a, env) == *k) as i64,
        Ex::Lt(a, k) => (eval(a, env) < *k) as i64,
        Ex::Len(i) => match env.f[*i].as_ref().expect("model: len") {
            Val::L(v) => v.len() as i64,
            Val::Y(v) => v.len() as i64,
            Val::M(v) => v.len() as i64,
            Val::Set(v) => v.len() as i64,
            _ => panic!("model: len of non list"),
        },
    }
}

impl<'z, 't> Dec<'z, 't> {
    pub fn bytes(z: &'z Zoo, data: &[u8], tail: Tail) -> Dec<'z, 'static> {
        Dec {
            z,
            data: data.to_vec(),
            cur: Cursor { pos: 0, a: 0, b: 0, look: false },
            bits: 0,
            touched: 0,
            mode: Mode::Bytes { tail },
            steps: 0,
            tracked: 0,
            seek_err: None,
            seeks: 0,
            err_at: None,
            noseek: false,
            over: false,
        }
    }
    pub fn gen(z: &'z Zoo, tape: &'t mut Tape, budget: i64) -> Dec<'z, 't> {
        Dec {
            z,
            data: vec![],
            cur: Cursor { pos: 0, a: 0, b: 0, look: false },
            bits: 0,
            touched: 0,
            mode: Mode::Gen { tape, known: vec![], sealed: false, budget },
            steps: 0,
            tracked: 0,
            seek_err: None,
            seeks: 0,
            err_at: None,
            noseek: false,
            over: false,
        }
    }

    fn fetch(&mut self, pos: u64) -> R<u8> {
        self.touched = self.touched.max(pos + 1);
        if let Some((at, k)) = &self.err_at {
            if pos >= *at {
                return Err(ErrC::Io(k.clone()));
            }
        }
        if (pos as usize) < self.data.len() && pos < usize::MAX as u64 {
            return Ok(self.data[pos as usize]);
        }
        match &mut self.mode {
            Mode::Bytes { tail } => match tail {
                Tail::Eof => Err(ErrC::Incomplete),
                Tail::Err(k) => Err(ErrC::Io(k.clone())),
            },
            Mode::Gen { known, sealed, .. } => {
                if *sealed || pos > 1 << 20 {
                    return Err(ErrC::Incomplete);
                }
                while self.data.len() <= pos as usize {
                    self.data.push(0);
                    known.push(0);
                }
                Ok(self.data[pos as usize])
            }
        }
    }

    /// position of the next bit under `or`: (byte offset, msb index)
    pub fn next_bit(&mut self, or: Or) -> R<(u64, u32)> {
        if self.cur.a == self.cur.b {
            let p = self.cur.pos;
            self.fetch(p)?;
            self.cur.pos += 1;
            self.cur.a = 0;
            self.cur.b = 8;
        }
        self.cur.look = false;
        self.bits += 1;
        Ok(match or {
            Or::Msb => {
                self.cur.a += 1;
                (self.cur.pos - 1, self.cur.a - 1)
            }
            Or::Lsb => {
                self.cur.b -= 1;
                (self.cur.pos - 1, self.cur.b)
            }
        })
    }

    pub fn take(&mut self, n: u32, or: Or) -> R<Vec<bool>> {
        let mut out = Vec::with_capacity(n as usize);
        for _ in 0..n {
            let (p, i) = self.next_bit(or)?;
            out.push(self.data[p as usize] >> (7 - i) & 1 == 1);
        }
        Ok(out)
    }

    /// In generation mode: fix the next bits (where still free) to `bits`.
    fn plant(&mut self, bits: &[bool], or: Or) {
        if !matches!(self.mode, Mode::Gen { .. }) {
            return;
        }
        let save = (self.cur.clone(), self.bits, self.touched);
        for b in bits {
            let Ok((p, i)) = self.next_bit(or) else { break };
            if let Mode::Gen { known, .. } = &mut self.mode {
                let m = 1u8 << (7 - i);
                if known[p as usize] & m == 0 {
                    known[p as usize] |= m;
                    if *b {
                        self.data[p as usize] |= m;
                    }
                }
            }
        }
        self.cur = save.0;
        self.bits = save.1;
        self.touched = save.2;
    }

    pub fn is_gen(&self) -> bool {
        matches!(self.mode, Mode::Gen { .. })
    }

    fn tdraw(&mut self, n: u64, l: &'static str) -> u64 {
        match &mut self.mode {
            Mode::Gen { tape, .. } => tape.draw(n, l),
            _ => 0,
        }
    }

    fn budget(&mut self) -> i64 {
        match &self.mode {
            Mode::Gen { budget, .. } => *budget,
            _ => 1,
        }
    }

    pub fn skip(&mut self, n: u64, or: Or) -> R<()> {
        if n > 1 << 24 {
            // far beyond any simulated stream
            let bits = match &self.mode {
                Mode::Bytes { .. } => (self.data.len() as u64) * 8,
                _ => 0,
            };
            if n > bits + 64 {
                self.touched = self.touched.max(self.data.len() as u64 + 1);
                if let Some((at, k)) = &self.err_at {
                    if *at <= self.data.len() as u64 {
                        return Err(ErrC::Io(k.clone()));
                    }
                }
                return match &self.mode {
                    Mode::Bytes { tail: Tail::Err(k) } => Err(ErrC::Io(k.clone())),
                    _ => Err(ErrC::Incomplete),
                };
            }
        }
        let mut left = n;
        while left > 0 {
            let c = left.min(64) as u32;
            let zeros = vec![false; c as usize];
            self.plant(&zeros, or);
            self.take(c, or)?;
            left -= c as u64;
        }
        Ok(())
    }

    pub fn seek(&mut self, s: &Seek, env: &Env) -> R<()> {
        let base_len = self.data.len() as i64;
        // a lookahead byte has not been consumed
        let look = if self.cur.look { 1 } else { 0 };
        let cur = self.cur.pos as i64 - look;
        let inner = self.cur.pos as i64;
        let np = match s {
            Seek::Cur(d) => cur + d,
            Seek::CurF(i) => cur + eval(&Ex::F(*i), env),
            Seek::End(d) => base_len + d,
            Seek::Start(p) => *p as i64,
            Seek::StartF(i) => eval(&Ex::F(*i), env),
            Seek::Rewind => 0,
        };
        self.cur.a = 0;
        self.cur.b = 0;
        self.cur.look = false;
        self.seeks += 1;
        if let Some(k) = &self.seek_err {
            return Err(ErrC::Io(k.clone()));
        }
        if self.noseek && (np != inner || matches!(s, Seek::End(_))) {
            return Err(ErrC::Io("Other".into()));
        }
        if np < 0 {
            return Err(ErrC::Io("InvalidInput".into()));
        }
        self.cur.pos = np as u64;
        self.bits = np as u64 * 8;
        Ok(())
    }

    /// At end of stream? Looks one byte ahead.
    pub fn at_end(&mut self) -> R<bool> {
        if self.cur.a != self.cur.b {
            return Ok(false);
        }
        if self.is_gen() {
            let p = self.cur.pos as usize;
            if p < self.data.len() {
                return Ok(false);
            }
            let b = self.budget();
            let stop = if let Mode::Gen { sealed: true, .. } = &self.mode {
                true
            } else {
                b <= 0 || self.tdraw(4, "read_all.more") == 0
            };
            if stop {
                if let Mode::Gen { sealed, .. } = &mut self.mode {
                    *sealed = true;
                }
                self.touched = self.touched.max(self.cur.pos + 1);
                return Ok(true);
            }
            return Ok(false);
        }
        let p = self.cur.pos;
        match self.fetch(p) {
            Ok(_) => {
                self.cur.pos += 1;
                self.cur.a = 0;
                self.cur.b = 8;
                self.cur.look = true;
                Ok(false)
            }
            Err(ErrC::Incomplete) => Ok(true),
            Err(e) => Err(e),
        }
    }

    fn uint(&mut self, n: u32, l: &Leaf, hint: Option<&Hint>, signed: bool, special: Option<u128>) -> R<u128> {
        if self.is_gen() {
            let m = maskn(n);
            let v: u128 = if let Some(v) = special {
                v
            } else {
                match hint {
                    Some(Hint::Range(lo, hi)) => {
                        let v = lo + self.tdraw((hi - lo + 1) as u64, "int.range") as i64;
                        v as i128 as u128
                    }
                    Some(Hint::OneOf(v)) => {
                        let i = self.tdraw(v.len() as u64, "int.oneof") as usize;
                        v[i] as i128 as u128
                    }
                    Some(Hint::Mult(k, max)) => (k * self.tdraw(*max as u64 + 1, "int.mult") as i64) as u128,
                    None => match self.tdraw(6, "int.kind") {
                        0 => 0,
                        1 => self.tdraw(16, "int.small") as u128,
                        2 => m,
                        3 => {
                            // sign boundary
                            let top = 1u128 << n.saturating_sub(1);
                            if self.tdraw(2, "int.top") == 0 {
                                top
                            } else {
                                top - 1
                            }
                        }
                        _ => {
                            let a = self.tdraw(u64::MAX, "int.lo") as u128;
                            let b = if n > 64 { self.tdraw(u64::MAX, "int.hi") as u128 } else { 0 };
                            a | b << 64
                        }
                    },
                }
            };
            let _ = signed;
            let bits = int_bits(v & m, n, l.en, l.or);
            self.plant(&bits, l.or);
        }
        let b = self.take(n, l.or)?;
        Ok(bits_int(&b, l.en, l.or))
    }

    fn leaf_bits(l: &Leaf, w: u32) -> R<u32> {
        if let Some(b) = l.bits {
            if b > w {
                return Err(ErrC::Parse);
            }
            Ok(b)
        } else if let Some(b) = l.bytes {
            if b as u64 * 8 > w as u64 {
                return Err(ErrC::Parse);
            }
            Ok(b * 8)
        } else {
            Ok(w)
        }
    }

    pub fn int(&mut self, w: u32, s: bool, l: &Leaf, hint: Option<&Hint>) -> R<Val> {
        let n = Self::leaf_bits(l, w)?;
        let u = self.uint(n, l, hint, s, None)?;
        Ok(if s { Val::I(sext(u, n)) } else { Val::U(u) })
    }

    pub fn ty(&mut self, t: &Ty, l: &Leaf, limit: &Limit, ctx: Option<i64>, hint: Option<&Hint>, env: &Env, special: &Special) -> R<Val> {
        self.steps += 1;
        if self.steps > 200_000 {
            return Err(ErrC::Limit);
        }
        match special {
            Special::No => {}
            Special::U24 => {
                let b = self.uint(24, &Leaf { en: En::Be, or: Or::Msb, bits: None, bytes: None }, None, false, None)?;
                return Ok(Val::U(b));
            }
            Special::MapXor(k) => {
                let v = self.uint(8, l, hint, false, None)?;
                return Ok(Val::U(v ^ *k as u128));
            }
            Special::MapLt(k) => {
                let h = Hint::Range(0, *k as i64 - 1);
                let v = self.uint(8, l, Some(hint.unwrap_or(&h)), false, None)?;
                if v >= *k as u128 {
                    return Err(ErrC::Parse);
                }
                return Ok(Val::U(v));
            }
        }
        match t {
            Ty::Int { w, s } => self.int(*w, *s, l, hint),
            Ty::Usz { s } => self.int(64, *s, l, hint),
            Ty::Tracked => {
                let v = self.uint(8, &Leaf { en: En::Le, or: Or::Msb, bits: None, bytes: None }, hint, false, None)?;
                self.tracked += 1;
                Ok(Val::U(v))
            }
            Ty::F32 => Ok(Val::F(self.uint(32, l, hint, false, None)? as u64)),
            Ty::F64 => Ok(Val::F(self.uint(64, l, hint, false, None)? as u64)),
            Ty::Bool => {
                let n = Self::leaf_bits(l, 8)?;
                let sp = if self.is_gen() { Some(self.tdraw(2, "bool") as u128) } else { None };
                match self.uint(n, l, None, false, sp)? {
                    0 => Ok(Val::B(false)),
                    1 => Ok(Val::B(true)),
                    _ => Err(ErrC::Parse),
                }
            }
            Ty::Nz { w, s } => {
                let n = Self::leaf_bits(l, *w)?;
                let h = Hint::Range(1, 100);
                let h = if self.is_gen() && self.tdraw(2, "nz") == 0 { Some(&h) } else { None };
                let mut u = self.uint(n, l, h, *s, None);
                if self.is_gen() {
                    if let Ok(0) = u {
                        u = Err(ErrC::Limit);
                    }
                }
                let u = u?;
                if u == 0 {
                    return Err(ErrC::Parse);
                }
                Ok(if *s { Val::I(sext(u, n)) } else { Val::U(u) })
            }
            Ty::Ip4 => Ok(Val::U(self.uint(32, l, hint, false, None)?)),
            Ty::Ip6 => Ok(Val::U(self.uint(128, l, hint, false, None)?)),
            Ty::CStr => {
                let mut out = vec![];
                loop {
                    self.steps += 1;
                    let sp = if self.is_gen() {
                        Some(if out.len() > 40 || self.tdraw(5, "cstr.more") == 0 {
                            0
                        } else {
                            1 + self.tdraw(255, "cstr.ch") as u128
                        })
                    } else {
                        None
                    };
                    let c = self.uint(8, l, None, false, sp)?;
                    if c == 0 {
                        return Ok(Val::Y(out));
                    }
                    out.push(c as u8);
                }
            }
            Ty::CStrN => {
                let n = l.bytes.expect("model: cstring size") as usize;
                let mut out = vec![];
                let l = &Leaf { bytes: None, ..*l };
                for i in 0..n {
                    let sp = if self.is_gen() { Some(if i + 1 == n { 0 } else { 1 + self.tdraw(255, "cstr.ch") as u128 }) } else { None };
                    out.push(self.uint(8, l, None, false, sp)? as u8);
                }
                if out.iter().position(|c| *c == 0) != n.checked_sub(1) || n == 0 {
                    return Err(ErrC::Parse);
                }
                out.pop();
                Ok(Val::Y(out))
            }
            Ty::Def(d) => self.def(*d, l, ctx),
            Ty::Arr(t, n) => {
                let mut out = vec![];
                for _ in 0..*n {
                    out.push(self.ty(t, l, &Limit::None, ctx, hint, env, &Special::No)?);
                }
                Ok(Val::L(out))
            }
            Ty::Tup(ts) => {
                let mut out = vec![];
                for t in ts {
                    out.push(self.ty(t, l, &Limit::None, ctx, hint, env, &Special::No)?);
                }
                Ok(Val::L(out))
            }
            Ty::Opt(t) => {
                let v = self.ty(t, l, limit, ctx, hint, env, &Special::No)?;
                Ok(Val::S(Box::new(v)))
            }
            Ty::Boxed(t) | Ty::Arc(t) | Ty::Cow(t) => self.ty(t, l, limit, ctx, hint, env, &Special::No),
            Ty::Vec(t) | Ty::BoxSlice(t) | Ty::ArcSlice(t) => {
                let mut out = vec![];
                self.limited(limit, env, hint, |me, h| {
                    let v = me.ty(t, l, &Limit::None, ctx, h, env, &Special::No)?;
                    out.push(v.clone());
                    Ok(v)
                })?;
                Ok(Val::L(out))
            }
            Ty::Set(t) => {
                let mut out = vec![];
                self.limited(limit, env, hint, |me, h| {
                    let v = me.ty(t, l, &Limit::None, ctx, h, env, &Special::No)?;
                    out.push(v.clone());
                    Ok(v)
                })?;
                out.sort();
                out.dedup();
                Ok(Val::Set(out))
            }
            Ty::Map(k, v) => {
                let mut m: Vec<(Val, Val)> = vec![];
                self.limited(limit, env, hint, |me, h| {
                    let kv = me.ty(k, l, &Limit::None, ctx, h, env, &Special::No)?;
                    let vv = me.ty(v, l, &Limit::None, ctx, None, env, &Special::No)?;
                    m.retain(|x| x.0 != kv);
                    m.push((kv.clone(), vv));
                    Ok(kv)
                })?;
                m.sort();
                Ok(Val::M(m))
            }
        }
    }

    fn limited(&mut self, limit: &Limit, env: &Env, hint: Option<&Hint>, mut one: impl FnMut(&mut Self, Option<&Hint>) -> R<Val>) -> R<()> {
        match limit {
            Limit::None => panic!("model: container without limit"),
            Limit::Count(e) => {
                // a negative number, cast to usize, is a huge one
                let n = eval_count(e, env) as u64;
                for _ in 0..n {
                    one(self, hint)?;
                }
                Ok(())
            }
            Limit::Until(k) | Limit::UntilF0(k) => {
                let mut i = 0;
                loop {
                    let hs = Hint::OneOf(vec![*k]);
                    let h = if self.is_gen() {
                        if i > 20 || self.tdraw(4, "until.more") == 0 {
                            Some(&hs)
                        } else {
                            hint
                        }
                    } else {
                        None
                    };
                    let v = one(self, h)?;
                    i += 1;
                    let x = match (limit, &v) {
                        (Limit::UntilF0(_), Val::L(f)) => as_i(&f[0]),
                        _ => as_i(&v),
                    };
                    if x == *k {
                        return Ok(());
                    }
                    if self.is_gen() && i > 60 {
                        return Err(ErrC::Limit);
                    }
                }
            }
            Limit::Bits(e) | Limit::Bytes(e) => {
                let mut n = eval_count(e, env) as i128;
                if matches!(limit, Limit::Bytes(_)) {
                    n *= 8;
                }
                if n == 0 {
                    return Ok(());
                }
                let start = self.bits as i128;
                loop {
                    one(self, hint)?;
                    let used = self.bits as i128 - start;
                    if used == n {
                        return Ok(());
                    }
                    if used > n {
                        // the elements do not fill the announced size exactly:
                        // some error, but which one is not specified
                        self.over = true;
                        return Err(ErrC::Limit);
                    }
                }
            }
            Limit::All => {
                while !self.at_end()? {
                    if let Mode::Gen { budget, .. } = &mut self.mode {
                        *budget -= 1;
                    }
                    one(self, hint)?;
                }
                Ok(())
            }
        }
    }

    fn magic(&mut self, m: &[u8]) -> R<()> {
        for b in m {
            let bits: Vec<bool> = int_bits(*b as u128, 8, En::Be, Or::Msb);
            self.plant(&bits, Or::Msb);
            let g = self.take(8, Or::Msb)?;
            if g != bits {
                return Err(ErrC::Parse);
            }
        }
        Ok(())
    }

    /// `l` is the context handed down by the parent (endian, order)
    pub fn def(&mut self, d: usize, l: &Leaf, n: Option<i64>) -> R<Val> {
        let z = self.z;
        let def = &z.defs[d];
        let (en, or) = eff(def, l);
        let n = match def.ctx {
            CtxK::N | CtxK::EndianN => n,
            CtxK::NDefault(k) => Some(n.unwrap_or(k as i64)),
            _ => None,
        };
        let base = Leaf { en, or, bits: None, bytes: None };
        if let Some(s) = &def.seek {
            self.seek(s, &Env::default())?;
        }
        self.magic(&def.magic)?;
        match &def.body {
            Body::Struct(fs) => {
                let mut env = Env { f: vec![None; fs.len()], n, bits: 0 };
                self.fields(fs, &base, &mut env, None)?;
                Ok(Val::L(visible(fs, &env)))
            }
            Body::Enum { id_ty, id_endian, bits, bytes, variants } => {
                let idv: Val = match id_ty {
                    None => Val::I(n.expect("ctx id") as i128),
                    Some(t) => {
                        let il = Leaf { en: id_endian.unwrap_or(en), or, bits: *bits, bytes: *bytes };
                        if self.is_gen() {
                            // usually a known id
                            let v = self.gen_id(variants, t, &il);
                            if let Some(v) = v {
                                self.plant_id(t, &il, &v);
                            }
                        }
                        self.ty(t, &il, &Limit::None, None, None, &Env::default(), &Special::No)?
                    }
                };
                let mut pick = None;
                for (i, v) in variants.iter().enumerate() {
                    if id_match(&v.id, &idv) {
                        pick = Some(i);
                        break;
                    }
                }
                if pick.is_none() {
                    pick = variants.iter().position(|v| v.default);
                }
                let Some(i) = pick else { return Err(ErrC::Parse) };
                let fs = &variants[i].fields;
                let mut env = Env { f: vec![None; fs.len()], n, bits: 0 };
                self.fields(fs, &base, &mut env, Some(&idv))?;
                Ok(Val::E(i, visible(fs, &env)))
            }
        }
    }

    fn gen_id(&mut self, vs: &[Variant], t: &Ty, _l: &Leaf) -> Option<Val> {
        let i = self.tdraw(vs.len() as u64, "enum.variant") as usize;
        let w = match t {
            Ty::Int { s, .. } => *s,
            _ => false,
        };
        let mk = |v: i128| if w { Val::I(v) } else { Val::U(v as u128) };
        match &vs[i].id {
            VarId::Int(v) | VarId::Disc(v) => Some(mk(*v)),
            VarId::Pat(a, b) => {
                let k = self.tdraw((b - a + 1).min(200) as u64, "enum.pat") as i128;
                Some(mk(a + k))
            }
            VarId::PatSet(v) => {
                let k = self.tdraw(v.len() as u64, "enum.patset") as usize;
                Some(mk(v[k]))
            }
            VarId::Bytes(b) => Some(Val::L(b.iter().map(|x| Val::U(*x as u128)).collect())),
            VarId::Wild => None,
        }
    }

    fn plant_id(&mut self, t: &Ty, l: &Leaf, v: &Val) {
        match (t, v) {
            (Ty::Int { w, .. }, _) => {
                let n = Self::leaf_bits(l, *w).unwrap();
                let u = match v {
                    Val::U(u) => *u,
                    Val::I(i) => *i as u128,
                    _ => return,
                };
                let b = int_bits(u & maskn(n), n, l.en, l.or);
                self.plant(&b, l.or);
            }
            (Ty::Bool, _) => {}
            (Ty::Arr(_, _), Val::L(bs)) => {
                let mut bits = vec![];
                for b in bs {
                    if let Val::U(u) = b {
                        bits.extend(int_bits(*u, 8, En::Be, Or::Msb));
                    }
                }
                self.plant(&bits, Or::Msb);
            }
            _ => {}
        }
    }

    fn fields(&mut self, fs: &[Field], base: &Leaf, env: &mut Env, id: Option<&Val>) -> R<()> {
        for (i, f) in fs.iter().enumerate() {
            if f.id_store {
                // the stored id is what was already read
                env.f[i] = Some(id.expect("id").clone());
                continue;
            }
            let or = f.order.unwrap_or(base.or);
            let l = Leaf { en: f.endian.unwrap_or(base.en), or, bits: f.bits.or(f.bits_ex.as_ref().map(|e| eval(e, env) as u32)), bytes: f.bytes.or(f.bytes_ex.as_ref().map(|e| (eval(e, env) as u64 as u128).min(u32::MAX as u128) as u32)) };
            if let Some(s) = &f.seek {
                let s = s.clone();
                self.seek(&s, env)?;
            }
            self.magic(&f.magic)?;
            env.bits = self.bits;
            let pb = f.pad_bits_before as u64 + f.pad_bits_before_ex.as_ref().map_or(0, |e| eval(e, env) as u64) + f.pad_bytes_before.as_ref().map_or(0, |e| eval(e, env) as u64 * 8);
            self.skip(pb, or)?;
            env.bits = self.bits;
            let read = match (&f.skip, &f.cond) {
                (Skip::All, Some(c)) | (Skip::Read, Some(c)) => eval(c, env) == 0,
                (Skip::All, None) | (Skip::Read, None) => false,
                (Skip::Write, _) => true,
                (Skip::No, Some(c)) => eval(c, env) != 0,
                (Skip::No, None) => true,
            };
            let v = if read {
                let c = f.ctx.as_ref().map(|e| eval(e, env));
                self.ty(&f.ty, &l, &f.limit, c, f.hint.as_ref(), env, &f.special)?
            } else {
                default_val(&f.ty, f.default)
            };
            env.f[i] = Some(v);
            if let Some(a) = &f.assert {
                if eval(a, env) == 0 {
                    return Err(ErrC::Assertion);
                }
            }
            if let Some(a) = f.assert_eq {
                if as_i(env.f[i].as_ref().unwrap()) != a {
                    return Err(ErrC::Assertion);
                }
            }
            env.bits = self.bits;
            let pa = f.pad_bits_after as u64 + f.pad_bits_after_ex.as_ref().map_or(0, |e| eval(e, env) as u64) + f.pad_bytes_after.as_ref().map_or(0, |e| eval(e, env) as u64 * 8);
            self.skip(pa, or)?;
        }
        Ok(())
    }
}

pub fn eff(def: &Def, l: &Leaf) -> (En, Or) {
    let en = match def.ctx {
        CtxK::Endian | CtxK::EndianOrder | CtxK::EndianN => l.en,
        _ => def.endian.unwrap_or(En::Le),
    };
    let or = match def.ctx {
        CtxK::Order | CtxK::EndianOrder => l.or,
        _ => def.order.unwrap_or(Or::Msb),
    };
    (en, or)
}

pub fn id_match(id: &VarId, v: &Val) -> bool {
    let i = match v {
        Val::U(u) => *u as i128,
        Val::I(i) => *i,
        Val::B(b) => *b as i128,
        // the id is a value of another enum
        Val::E(k, _) => *k as i128,
        Val::L(bs) => {
            return match id {
                VarId::Bytes(b) => bs.len() == b.len() && bs.iter().zip(b).all(|(x, y)| *x == Val::U(*y as u128)),
                VarId::Wild => true,
                _ => false,
            }
        }
        _ => return false,
    };
    match id {
        VarId::Int(x) | VarId::Disc(x) => *x == i,
        VarId::Pat(a, b) => *a <= i && i <= *b,
        VarId::PatSet(v) => v.contains(&i),
        VarId::Wild => true,
        VarId::Bytes(_) => false,
    }
}

pub fn visible(fs: &[Field], env: &Env) -> Vec<Val> {
    fs.iter()
        .enumerate()
        .filter(|(_, f)| f.temp.is_none())
        .map(|(i, _)| env.f[i].clone().unwrap())
        .collect()
}

pub fn default_val(t: &Ty, d: Option<i64>) -> Val {
    match t {
        Ty::Int { s, .. } => {
            if *s {
                Val::I(d.unwrap_or(0) as i128)
            } else {
                Val::U(d.unwrap_or(0) as u128)
            }
        }
        Ty::Opt(_) => Val::N,
        Ty::Bool => Val::B(false),
        Ty::Vec(_) => Val::L(vec![]),
        _ => panic!("model: default of {t:?}"),
    }
}

// ---------------------------------------------------------------- encoder

pub struct Enc<'z> {
    pub z: &'z Zoo,
    pub out: Vec<u8>,
    pub pos: u64,
    pub a: u32,
    pub b: u32,
    pub cur: u8,
    pub bits: u64,
    pub seek_err: Option<String>,
    pub seeks: u64,
    /// bits of both orders ended up in one byte: no defined outcome
    pub mixed: bool,
}

impl<'z> Enc<'z> {
    pub fn new(z: &'z Zoo) -> Self {
        Enc { z, out: vec![], pos: 0, a: 0, b: 0, cur: 0, bits: 0, seek_err: None, seeks: 0, mixed: false }
    }
    /// the bits of an unfinished last byte, in wire order
    pub fn rest(&self) -> Vec<bool> {
        if self.a == self.b {
            return vec![];
        }
        // Msb order fills from the front, Lsb order from the back
        if self.a > 0 {
            (0..self.a).map(|i| self.cur >> (7 - i) & 1 == 1).collect()
        } else {
            (self.b..8).map(|i| self.cur >> (7 - i) & 1 == 1).collect()
        }
    }
    fn put_byte(&mut self, v: u8) {
        while self.out.len() <= self.pos as usize {
            self.out.push(0);
        }
        self.out[self.pos as usize] = v;
        self.pos += 1;
    }
    pub fn put(&mut self, bits: &[bool], or: Or) {
        for x in bits {
            if self.a == self.b {
                self.a = 0;
                self.b = 8;
                self.cur = 0;
            }
            self.mixed |= match or {
                Or::Msb => self.b != 8,
                Or::Lsb => self.a != 0,
            };
            let i = match or {
                Or::Msb => {
                    self.a += 1;
                    self.a - 1
                }
                Or::Lsb => {
                    self.b -= 1;
                    self.b
                }
            };
            if *x {
                self.cur |= 1 << (7 - i);
            }
            self.bits += 1;
            if self.a == self.b {
                let c = self.cur;
                self.put_byte(c);
                self.a = 0;
                self.b = 0;
            }
        }
    }
    /// final partial byte, padded with zeros
    pub fn finalize(&mut self) {
        if self.a != self.b {
            let c = self.cur;
            self.put_byte(c);
            self.a = 0;
            self.b = 0;
        }
    }
    pub fn seek(&mut self, s: &Seek, env: &Env) -> R<()> {
        let np = match s {
            Seek::Cur(d) => self.pos as i64 + d,
            Seek::CurF(i) => self.pos as i64 + eval(&Ex::F(*i), env),
            Seek::End(d) => self.out.len() as i64 + d,
            Seek::Start(p) => *p as i64,
            Seek::StartF(i) => eval(&Ex::F(*i), env),
            Seek::Rewind => 0,
        };
        self.a = 0;
        self.b = 0;
        self.seeks += 1;
        if let Some(k) = &self.seek_err {
            return Err(ErrC::Io(k.clone()));
        }
        if np < 0 {
            return Err(ErrC::Io("InvalidInput".into()));
        }
        self.pos = np as u64;
        Ok(())
    }
    fn uint(&mut self, v: u128, n: u32, l: &Leaf) {
        let b = int_bits(v & maskn(n), n, l.en, l.or);
        self.put(&b, l.or);
    }
    pub fn int(&mut self, v: &Val, w: u32, s: bool, l: &Leaf) -> R<()> {
        let n = l.bits.unwrap_or(l.bytes.map_or(w, |b| b.saturating_mul(8)));
        if n > w {
            return Err(ErrC::InvalidParam);
        }
        match v {
            Val::U(u) => {
                if *u > maskn(n) && l.bits.is_some() {
                    return Err(ErrC::InvalidParam);
                }
                self.uint(*u, n, l)
            }
            Val::I(i) => {
                if s && l.bits.is_some() && n < w && sext(*i as u128 & maskn(n), n) != *i {
                    return Err(ErrC::InvalidParam);
                }
                self.uint(*i as u128, n, l)
            }
            _ => panic!("model enc int {v:?}"),
        }
        Ok(())
    }
    pub fn ty(&mut self, t: &Ty, v: &Val, l: &Leaf, ctx: Option<i64>, special: &Special) -> R<()> {
        match special {
            Special::No => {}
            Special::U24 => {
                let Val::U(u) = v else { panic!() };
                self.uint(*u, 24, &Leaf { en: En::Be, or: Or::Msb, bits: None, bytes: None });
                return Ok(());
            }
            Special::MapXor(k) => {
                let Val::U(u) = v else { panic!() };
                self.uint(*u ^ *k as u128, 8, l);
                return Ok(());
            }
            Special::MapLt(_) => {
                let Val::U(u) = v else { panic!() };
                self.uint(*u, 8, l);
                return Ok(());
            }
        }
        match (t, v) {
            (Ty::Int { w, s }, _) => self.int(v, *w, *s, l)?,
            (Ty::Usz { s }, _) => self.int(v, 64, *s, l)?,
            (Ty::Tracked, Val::U(u)) => self.uint(*u, 8, &Leaf { en: En::Le, or: Or::Msb, bits: None, bytes: None }),
            (Ty::F32, Val::F(b)) => self.uint(*b as u128, 32, l),
            (Ty::F64, Val::F(b)) => self.uint(*b as u128, 64, l),
            (Ty::Bool, Val::B(b)) => self.int(&Val::U(*b as u128), 8, false, l)?,
            (Ty::Nz { w, s }, _) => self.int(v, *w, *s, l)?,
            (Ty::Ip4, Val::U(u)) => self.uint(*u, 32, l),
            (Ty::Ip6, Val::U(u)) => self.uint(*u, 128, l),
            (Ty::CStr | Ty::CStrN, Val::Y(b)) => {
                let l = &Leaf { bytes: None, ..*l };
                for c in b {
                    self.uint(*c as u128, 8, l);
                }
                self.uint(0, 8, l);
            }
            (Ty::Def(d), _) => self.def(*d, v, l, ctx)?,
            (Ty::Arr(t, _), Val::L(x)) | (Ty::Vec(t), Val::L(x)) | (Ty::BoxSlice(t), Val::L(x)) | (Ty::ArcSlice(t), Val::L(x)) | (Ty::Set(t), Val::Set(x)) => {
                for e in x {
                    self.ty(t, e, l, ctx, &Special::No)?;
                }
            }
            (Ty::Tup(ts), Val::L(x)) => {
                for (t, e) in ts.iter().zip(x) {
                    self.ty(t, e, l, ctx, &Special::No)?;
                }
            }
            (Ty::Map(k, w), Val::M(x)) => {
                for (a, b) in x {
                    self.ty(k, a, l, ctx, &Special::No)?;
                    self.ty(w, b, l, ctx, &Special::No)?;
                }
            }
            (Ty::Opt(_), Val::N) => {}
            (Ty::Opt(t), Val::S(x)) => self.ty(t, x, l, ctx, &Special::No)?,
            (Ty::Boxed(t), _) | (Ty::Arc(t), _) | (Ty::Cow(t), _) => self.ty(t, v, l, ctx, &Special::No)?,
            _ => panic!("model enc {t:?} {v:?}"),
        }
        Ok(())
    }
    pub fn magic(&mut self, m: &[u8]) {
        for b in m {
            let bits = int_bits(*b as u128, 8, En::Be, Or::Msb);
            self.put(&bits, Or::Msb);
        }
    }
    pub fn def(&mut self, d: usize, v: &Val, l: &Leaf, n: Option<i64>) -> R<()> {
        let r = self.def1(d, v, l, n);
        if self.mixed {
            return Err(ErrC::Limit);
        }
        r
    }
    fn def1(&mut self, d: usize, v: &Val, l: &Leaf, n: Option<i64>) -> R<()> {
        let z = self.z;
        let def = &z.defs[d];
        let (en, or) = eff(def, l);
        let n = match def.ctx {
            CtxK::N | CtxK::EndianN => n,
            CtxK::NDefault(k) => Some(n.unwrap_or(k as i64)),
            _ => None,
        };
        let base = Leaf { en, or, bits: None, bytes: None };
        if let Some(s) = &def.seek {
            self.seek(s, &Env::default())?;
        }
        self.magic(&def.magic);
        match (&def.body, v) {
            (Body::Struct(fs), Val::L(x)) => self.fields(fs, x, &base, n, &base, &None),
            (Body::Enum { id_ty, id_endian, bits, bytes, variants }, Val::E(i, x)) => {
                let il = Leaf { en: id_endian.unwrap_or(en), or, bits: *bits, bytes: *bytes };
                let va = &variants[*i];
                if let Some(t) = id_ty {
                    let idv = match &va.id {
                        VarId::Int(k) | VarId::Disc(k) => Some(match t {
                            Ty::Int { s: true, .. } => Val::I(*k),
                            Ty::Bool => Val::B(*k != 0),
                            Ty::Def(_) => Val::E(*k as usize, vec![]),
                            _ => Val::U(*k as u128),
                        }),
                        VarId::Bytes(b) => Some(Val::L(b.iter().map(|x| Val::U(*x as u128)).collect())),
                        _ => None,
                    };
                    if let Some(idv) = idv {
                        self.ty(t, &idv, &il, None, &Special::No)?;
                    }
                }
                self.fields(&va.fields, x, &base, n, &il, id_ty)
            }
            _ => panic!("model enc def {d} {v:?}"),
        }
    }
    fn fields(&mut self, fs: &[Field], x: &[Val], base: &Leaf, n: Option<i64>, il: &Leaf, idt: &Option<Ty>) -> R<()> {
        let mut env = Env { f: vec![None; fs.len()], n, bits: 0 };
        let mut k = 0;
        for (i, f) in fs.iter().enumerate() {
            if f.temp.is_none() {
                env.f[i] = Some(x[k].clone());
                k += 1;
            }
        }
        for (i, f) in fs.iter().enumerate() {
            if f.id_store {
                let v = env.f[i].clone().unwrap();
                self.ty(idt.as_ref().unwrap(), &v, il, None, &Special::No)?;
                continue;
            }
            let or = f.order.unwrap_or(base.or);
            let l = Leaf { en: f.endian.unwrap_or(base.en), or, bits: f.bits.or(f.bits_ex.as_ref().map(|e| eval(e, &env) as u32)), bytes: f.bytes.or(f.bytes_ex.as_ref().map(|e| (eval(e, &env) as u64 as u128).min(u32::MAX as u128) as u32)) };
            if let Some(s) = &f.seek {
                self.seek(s, &env)?;
            }
            self.magic(&f.magic);
            env.bits = self.bits;
            let pb = f.pad_bits_before as u64 + f.pad_bits_before_ex.as_ref().map_or(0, |e| eval(e, &env) as u64) + f.pad_bytes_before.as_ref().map_or(0, |e| eval(e, &env) as u64 * 8);
            self.put(&vec![false; pb as usize], or);
            env.bits = self.bits;
            if let Some(e) = &f.temp {
                let v = eval(e, &env);
                env.f[i] = Some(Val::U(v as u128));
            }
            if let Some(a) = &f.assert {
                if eval(a, &env) == 0 {
                    return Err(ErrC::Assertion);
                }
            }
            if let Some(a) = f.assert_eq {
                if as_i(env.f[i].as_ref().unwrap()) != a {
                    return Err(ErrC::Assertion);
                }
            }
            let write = match (&f.skip, &f.cond) {
                (Skip::All, Some(c)) | (Skip::Write, Some(c)) => eval(c, &env) == 0,
                (Skip::All, None) | (Skip::Write, None) => false,
                _ => true,
            };
            if write {
                let v = env.f[i].clone().unwrap();
                let c = f.ctx.as_ref().map(|e| eval(e, &env));
                self.ty(&f.ty, &v, &l, c, &f.special)?;
            }
            env.bits = self.bits;
            let pa = f.pad_bits_after as u64 + f.pad_bits_after_ex.as_ref().map_or(0, |e| eval(e, &env) as u64) + f.pad_bytes_after.as_ref().map_or(0, |e| eval(e, &env) as u64 * 8);
            self.put(&vec![false; pa as usize], or);
        }
        Ok(())
    }
}

pub fn root_leaf() -> Leaf {
    Leaf { en: En::Le, or: Or::Msb, bits: None, bytes: None }
}
