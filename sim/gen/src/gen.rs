//! Generator of message types.  `zoo(seed, n)` is a pure function: build.rs
//! calls it to print the Rust types with their deku attributes, the simulator
//! calls it again to obtain the same schemas for the reference model.

use crate::schema::*;

pub const U8: Ty = Ty::Int { w: 8, s: false };

pub fn uint(w: u32) -> Ty {
    Ty::Int { w, s: false }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct GenCfg {
    /// allow bit-level attributes
    pub bits: bool,
    /// allow types on the heap (Vec, Box, CString, Arc, Cow)
    pub alloc: bool,
    /// allow std-only types (HashMap, HashSet)
    pub std: bool,
}

struct B {
    fields: Vec<Field>,
    align: Option<u32>,
    fixed: Option<usize>,
    greedy: bool,
    seeky: bool,
    unordered: bool,
    canonical: bool,
    tracked: bool,
    uses_bits: bool,
    has_update: bool,
    need_align: bool,
    has_limit: bool,
    has_enum: bool,
    has_pad: bool,
    size_ok: bool,
    /// index of small unsigned integer fields usable in expressions
    small: Vec<usize>,
    endian: Option<En>,
    endian_ctx: bool,
    order: Option<Or>,
    order_ctx: bool,
    n_ctx: bool,
    named: bool,
    in_enum: bool,
    /// own source of randomness of the decorations
    r: Sm,
    /// how many fields out of 12 are decorated
    deco: u64,
    bits_ok: bool,
}

impl B {
    fn new(r: u64, bits_ok: bool) -> B {
        let mut r = Sm(r);
        let deco = *r.pick(&[0, 1, 3, 5]);
        B {
            r,
            deco,
            bits_ok,
            fields: vec![],
            align: Some(0),
            fixed: Some(0),
            greedy: false,
            seeky: false,
            unordered: false,
            canonical: true,
            tracked: false,
            uses_bits: false,
            has_update: false,
            need_align: false,
            has_limit: false,
            has_enum: false,
            has_pad: false,
            size_ok: true,
            small: vec![],
            endian: None,
            endian_ctx: false,
            order: None,
            order_ctx: false,
            n_ctx: false,
            named: true,
            in_enum: false,
        }
    }
    fn adv(&mut self, bits: Option<usize>, mod8: Option<u32>) {
        self.fixed = match (self.fixed, bits) {
            (Some(a), Some(b)) => Some(a + b),
            _ => None,
        };
        let m = bits.map(|b| (b % 8) as u32).or(mod8);
        self.align = match (self.align, m) {
            (Some(a), Some(b)) => Some((a + b) % 8),
            _ => None,
        };
    }
    fn has_endian(&self) -> bool {
        self.endian.is_some() || self.endian_ctx
    }
    fn has_order(&self) -> bool {
        self.order.is_some() || self.order_ctx
    }
    /// Adds attributes that go with any kind of field.
    fn decorate(&mut self, f: &mut Field, bits: &mut Option<usize>, mod8: &mut Option<u32>) {
        if f.id_store || !self.r.chance(self.deco, 12) {
            return;
        }
        let lsb = self.has_order();
        let whole = self.align == Some(0);
        if f.magic.is_empty() && !lsb && self.r.chance(1, 4) {
            let n = 1 + self.r.below(3) as usize;
            f.magic = (0..n).map(|_| self.r.below(256) as u8).collect();
        }
        let plain = matches!(f.ty, Ty::Int { .. } | Ty::F32 | Ty::F64 | Ty::Bool | Ty::Nz { .. } | Ty::Ip4 | Ty::Ip6 | Ty::Usz { .. });
        let bitpad = self.bits_ok && plain && (!lsb || self.order.is_some());
        let bytes = |b: &mut B| {
            if !b.seeky && b.r.chance(1, 4) {
                // up to a multiple of 2 or 4 bytes
                let k = *b.r.pick(&[1, 3]);
                b.size_ok = false;
                b.fixed = None;
                Ex::And(Box::new(Ex::Mul(Box::new(Ex::ByteOff), k)), k)
            } else if !b.small.is_empty() && b.r.chance(1, 4) {
                b.size_ok = false;
                let i = *b.r.pick(&b.small);
                Ex::And(Box::new(Ex::F(i)), 3)
            } else {
                Ex::C(1 + b.r.below(3) as i64)
            }
        };
        if self.r.chance(1, 4) && f.pad_bytes_before.is_none() && f.pad_bits_before == 0 {
            match self.r.below(3) {
                0 if bitpad => {
                    f.pad_bytes_before = Some(bytes(self));
                    f.pad_bits_before = 1 + self.r.below(12) as u32;
                }
                1 if bitpad => f.pad_bits_before = 1 + self.r.below(12) as u32,
                _ => f.pad_bytes_before = Some(bytes(self)),
            }
        }
        if self.r.chance(1, 4) && f.pad_bytes_after.is_none() && f.pad_bits_after == 0 && f.limit != Limit::All {
            match self.r.below(3) {
                0 if bitpad => {
                    f.pad_bytes_after = Some(bytes(self));
                    f.pad_bits_after = 1 + self.r.below(12) as u32;
                }
                1 if bitpad => f.pad_bits_after = 1 + self.r.below(12) as u32,
                _ => f.pad_bytes_after = Some(bytes(self)),
            }
        }
        // padding up to a whole byte: only where the size of what follows then is known
        if bitpad && !lsb && !self.seeky && self.r.chance(1, 6) {
            let up = Some(Ex::And(Box::new(Ex::Mul(Box::new(Ex::BitOff), 7)), 7));
            if self.r.chance(1, 2) && f.pad_bits_before == 0 && f.pad_bytes_before.is_none() {
                f.pad_bits_before_ex = up;
            } else if f.pad_bits_after == 0 && f.pad_bytes_after.is_none() {
                f.pad_bits_after_ex = up;
            }
        }
        let me = self.fields.len();
        if let (Some(Hint::Range(_, hi)), Ty::Int { .. }) = (&f.hint, &f.ty) {
            if f.assert.is_none() && f.assert_eq.is_none() && f.temp.is_none() && f.update.is_none() && f.skip == Skip::No && self.r.chance(1, 4) {
                f.assert = Some(Ex::Lt(Box::new(Ex::F(me)), hi + 1));
            }
        }
        let int = match (&f.ty, &f.special) {
            (Ty::Int { w, s }, Special::No) => Some((*w, *s)),
            _ => None,
        };
        if int.is_some() && self.bits_ok && whole && f.bits.is_none() && f.bits_ex.is_none() && f.bytes.is_none() && f.bytes_ex.is_none() && f.pad_bits_before == 0 && f.pad_bits_after == 0 && f.order.is_none() && !self.order_ctx && self.r.chance(1, 4) {
            f.order = Some(if self.order == Some(Or::Lsb) || self.r.chance(1, 5) { Or::Msb } else { Or::Lsb });
            self.need_align = true;
        }
        if let (Some((w, false)), Skip::No, None, None, None, None) = (int, f.skip, &f.cond, &f.temp, &f.hint, &f.update) {
            if w <= 32 && f.assert.is_none() && f.assert_eq.is_none() && bits.is_some_and(|b| b % 8 == 0) && !self.small.is_empty() && self.r.chance(1, 8) {
                // a plain integer under a condition: always written, read only if it holds
                let i = *self.r.pick(&self.small);
                f.cond = Some(Ex::Eq(Box::new(Ex::And(Box::new(Ex::F(i)), 1)), 0));
                f.default = Some(self.r.below(200) as i64);
                self.canonical = false;
                *bits = None;
                *mod8 = Some(0);
            }
        }
        if let (Some((_, false)), None, None) = (int, &f.temp, &f.update) {
            if !self.small.is_empty() && self.r.chance(1, 5) {
                let i = *self.r.pick(&self.small);
                f.update = Some(match self.r.below(4) {
                    0 => Ex::C(self.r.below(120) as i64),
                    1 => Ex::F(i),
                    2 => Ex::Add(Box::new(Ex::And(Box::new(Ex::F(i)), 255)), self.r.below(30) as i64),
                    _ => Ex::Mul(Box::new(Ex::And(Box::new(Ex::F(i)), 15)), 1 + self.r.below(20) as i64),
                });
                self.has_update = true;
            }
        }
    }
    fn push(&mut self, mut f: Field, mut bits: Option<usize>, mut mod8: Option<u32>) -> usize {
        self.decorate(&mut f, &mut bits, &mut mod8);
        if f.bits.is_some() || f.pad_bits_after > 0 || f.pad_bits_before > 0 || f.order.is_some() {
            self.uses_bits = true;
        }
        if f.pad_bits_before_ex.is_some() {
            self.uses_bits = true;
            self.need_align = true;
            self.size_ok = false;
            self.fixed = None;
            self.align = Some(0);
        }
        let pads = f.pad_bits_before as usize + f.pad_bits_after as usize;
        self.adv(Some(f.magic.len() * 8 + pads), None);
        for e in [&f.pad_bytes_before, &f.pad_bytes_after] {
            match e {
                None => {}
                Some(Ex::C(c)) => self.adv(Some(*c as usize * 8), None),
                Some(_) => self.adv(None, Some(0)),
            }
        }
        if pads > 0 || f.pad_bytes_before.is_some() || f.pad_bytes_after.is_some() {
            self.has_pad = true;
        }
        self.adv(bits, mod8);
        if f.pad_bits_after_ex.is_some() {
            self.uses_bits = true;
            self.need_align = true;
            self.size_ok = false;
            self.fixed = None;
            self.align = Some(0);
            self.has_pad = true;
        }
        self.fields.push(f);
        self.fields.len() - 1
    }
}

pub struct G {
    pub r: Sm,
    pub cfg: GenCfg,
    pub defs: Vec<Def>,
}

/// fixed size of a type in bits under a leaf override
fn ty_bits(t: &Ty, bits: Option<u32>, bytes: Option<u32>, defs: &[Def]) -> Option<usize> {
    let l = |w: u32| Some(bits.unwrap_or(bytes.map_or(w, |b| b * 8)) as usize);
    match t {
        Ty::Int { w, .. } | Ty::Nz { w, .. } => l(*w),
        Ty::Usz { .. } => l(64),
        Ty::F32 => Some(32),
        Ty::F64 => Some(64),
        Ty::Bool => l(8),
        Ty::Ip4 => Some(32),
        Ty::Ip6 => Some(128),
        Ty::CStr | Ty::CStrN => None,
        Ty::Def(d) => defs[*d].fixed_bits,
        Ty::Arr(t, n) => ty_bits(t, bits, bytes, defs).map(|b| b * n),
        Ty::Tup(ts) => {
            let mut s = 0;
            for t in ts {
                s += ty_bits(t, bits, bytes, defs)?;
            }
            Some(s)
        }
        Ty::Boxed(t) | Ty::Arc(t) | Ty::Cow(t) => ty_bits(t, bits, bytes, defs),
        Ty::Tracked => Some(8),
        _ => None,
    }
}
fn ty_mod8(t: &Ty, bits: Option<u32>, bytes: Option<u32>, defs: &[Def]) -> Option<u32> {
    if let Some(b) = ty_bits(t, bits, bytes, defs) {
        return Some((b % 8) as u32);
    }
    match t {
        Ty::CStr | Ty::CStrN => Some(0),
        Ty::Def(d) => defs[*d].size_mod8,
        Ty::Arr(t, n) => ty_mod8(t, bits, bytes, defs).map(|m| m * (*n as u32) % 8),
        Ty::Boxed(t) | Ty::Arc(t) | Ty::Cow(t) => ty_mod8(t, bits, bytes, defs),
        Ty::Vec(t) | Ty::BoxSlice(t) | Ty::ArcSlice(t) | Ty::Set(t) => match ty_mod8(t, bits, bytes, defs) {
            Some(0) => Some(0),
            _ => None,
        },
        Ty::Map(a, b) => match (ty_mod8(a, bits, bytes, defs), ty_mod8(b, bits, bytes, defs)) {
            (Some(0), Some(0)) => Some(0),
            _ => None,
        },
        Ty::Opt(t) => match ty_mod8(t, bits, bytes, defs) {
            Some(0) => Some(0),
            _ => None,
        },
        Ty::Tup(ts) => {
            let mut s = 0;
            for t in ts {
                s += ty_mod8(t, bits, bytes, defs)?;
            }
            Some(s % 8)
        }
        _ => None,
    }
}

impl G {
    fn width(&mut self) -> u32 {
        *self.r.pick(&[8, 8, 16, 16, 32, 32, 64, 128])
    }
    fn rint(&mut self) -> Ty {
        Ty::Int { w: self.width(), s: self.r.chance(1, 4) }
    }

    fn find(&mut self, f: impl Fn(&Def) -> bool) -> Option<usize> {
        let c: Vec<usize> = self.defs.iter().filter(|d| f(d)).map(|d| d.idx).collect();
        if c.is_empty() {
            None
        } else {
            Some(*self.r.pick(&c))
        }
    }

    /// a definition that may be embedded in `b` as an element
    fn child(&mut self, b: &B, want: impl Fn(&Def) -> bool) -> Option<usize> {
        let (e, o, al) = (b.has_endian(), b.has_order(), b.align);
        self.find(move |d| {
            !d.greedy
                && !d.seeky
                && want(d)
                && match d.ctx {
                    CtxK::None | CtxK::NDefault(_) => !e && !o,
                    CtxK::Endian => e && !o,
                    CtxK::Order => !e && o,
                    CtxK::EndianOrder => e && o,
                    CtxK::N | CtxK::EndianN => false,
                }
                && (!d.need_align || al == Some(0))
                // two bit orders within one byte are not meaningful
                && (d.order.is_none() || d.order == b.order || d.size_mod8 == Some(0))
                && (b.order != Some(Or::Lsb) || al == Some(0) || d.order == Some(Or::Lsb) || matches!(d.ctx, CtxK::Order | CtxK::EndianOrder))
        })
    }

    fn note_child(&self, b: &mut B, t: &Ty) {
        match t {
            Ty::Def(d) => {
                let d = &self.defs[*d];
                b.unordered |= d.unordered;
                b.canonical &= d.canonical;
                b.tracked |= d.tracked;
                b.uses_bits |= d.uses_bits;
                b.size_ok &= d.size_derive;
                b.has_limit |= d.has_limit;
                b.has_enum |= d.has_enum;
                b.has_pad |= d.has_pad;
                if d.need_align {
                    b.need_align = true;
                }
            }
            Ty::Arr(t, _) | Ty::Vec(t) | Ty::Opt(t) | Ty::Boxed(t) | Ty::BoxSlice(t) | Ty::ArcSlice(t) | Ty::Arc(t) | Ty::Cow(t) | Ty::Set(t) => self.note_child(b, t),
            Ty::Tup(ts) => ts.iter().for_each(|t| self.note_child(b, t)),
            Ty::Map(a, c) => {
                self.note_child(b, a);
                self.note_child(b, c)
            }
            _ => {}
        }
    }

    fn ef(&mut self) -> Option<En> {
        match self.r.below(4) {
            0 => Some(En::Be),
            1 => Some(En::Le),
            _ => None,
        }
    }

    // ---- individual fields

    fn f_int(&mut self, b: &mut B) {
        let t = if self.r.chance(2, 5) { U8 } else { self.rint() };
        let mut f = Field::new(t.clone());
        let Ty::Int { w, s } = t else { unreachable!() };
        if self.r.chance(1, 2) {
            f.endian = self.ef();
        }
        if self.r.chance(1, 6) && w > 8 && b.order.is_none() && !b.order_ctx {
            f.bytes = Some(1 + self.r.below((w / 8) as u64) as u32);
        }
        let bits = ty_bits(&t, f.bits, f.bytes, &self.defs);
        let i = b.push(f, bits, None);
        if !s && w <= 32 {
            b.small.push(i);
        }
    }

    /// small counter field, returns its index
    fn f_small(&mut self, b: &mut B, hint: Hint) -> usize {
        let w = *self.r.pick(&[8, 8, 8, 16, 16, 32, 32, 64]);
        let mut f = Field::new(uint(w));
        if self.cfg.bits && b.order.is_none() && !b.order_ctx && self.r.chance(1, 4) && !matches!(hint, Hint::Mult(..)) {
            f.bits = Some(4 + self.r.below(5) as u32);
        } else if self.r.chance(1, 3) {
            f.endian = self.ef();
        }
        f.hint = Some(hint);
        let bits = ty_bits(&f.ty, f.bits, f.bytes, &self.defs);
        let i = b.push(f, bits, None);
        if w <= 32 {
            b.small.push(i);
        }
        i
    }

    /// The default bit order, spelled out.
    fn say_order(&mut self, b: &B, f: &mut Field) {
        if !b.has_order() && self.r.chance(1, 3) {
            f.order = Some(Or::Msb);
        }
    }

    fn f_bits(&mut self, b: &mut B) {
        // bit-sized integer or bool
        if self.r.chance(1, 6) {
            let mut f = Field::new(Ty::Bool);
            f.bits = Some(1);
            if !b.has_order() && self.r.chance(1, 3) {
                f.bits = Some(1 + self.r.below(8) as u32);
            }
            let n = f.bits;
            self.say_order(b, &mut f);
            b.push(f, n.map(|n| n as usize), None);
            return;
        }
        if !b.has_order() && self.r.chance(1, 10) {
            // sizes on other kinds of numbers
            let t = if self.r.chance(1, 3) || !self.cfg.alloc { Ty::Usz { s: self.r.chance(1, 3) } } else { Ty::Nz { w: *self.r.pick(&[8, 16, 32, 64, 128]), s: self.r.chance(1, 4) } };
            let w = ty_bits(&t, None, None, &self.defs).unwrap() as u64;
            let mut f = Field::new(t.clone());
            if w > 8 && self.r.chance(1, 3) {
                f.bytes = Some(1 + self.r.below(w / 8) as u32);
            } else {
                f.bits = Some(2 + self.r.below(w - 1) as u32);
            }
            f.endian = self.ef();
            if f.endian.is_none() && !b.has_endian() && matches!(t, Ty::Nz { .. }) {
                // sizes of these are only supported together with an endianness
                f.endian = Some(En::Be);
            }
            let n = ty_bits(&t, f.bits, f.bytes, &self.defs);
            b.push(f, n, None);
            return;
        }
        let t = self.rint();
        let Ty::Int { mut w, s } = t else { unreachable!() };
        if self.r.chance(1, 5) {
            w = *self.r.pick(&[64, 128]);
        }
        let mut f = Field::new(Ty::Int { w, s });
        self.say_order(b, &mut f);
        let n = match self.r.below(4) {
            0 if w >= 64 => 56 + self.r.below(9) as u32,
            0 => 1 + self.r.below(7.min(w as u64)) as u32,
            1 => w - self.r.below(3.min(w as u64 - 1)) as u32,
            _ => 1 + self.r.below(w as u64) as u32,
        };
        f.endian = self.ef();
        let lsb = b.order == Some(Or::Lsb) || b.order_ctx;
        let mut n = if s { n.max(2) } else { n };
        if lsb && n > 8 {
            // big endian + lsb is only well defined for whole bytes
            let be = f.endian == Some(En::Be) || (f.endian.is_none() && (b.endian == Some(En::Be) || b.endian_ctx));
            if be {
                n = n / 8 * 8;
            }
        }
        f.bits = Some(n);
        let i = b.push(f, Some(n as usize), None);
        if !s && w <= 32 {
            b.small.push(i);
        }
    }

    fn leaf_ty(&mut self, b: &B) -> Ty {
        let lsb = b.has_order();
        match self.r.below(if lsb { 4 } else { 10 }) {
            0 | 1 => U8,
            2 => self.rint(),
            3 => uint(16),
            4 => Ty::F32,
            5 if self.r.chance(1, 2) => Ty::F64,
            5 => Ty::Usz { s: self.r.chance(1, 3) },
            6 => Ty::Bool,
            7 => Ty::Nz { w: *self.r.pick(&[8, 16, 32, 64, 128]), s: self.r.chance(1, 4) },
            8 => Ty::Ip4,
            9 => Ty::Ip6,
            _ => uint(32),
        }
    }

    fn elem_ty(&mut self, b: &B, fixed: bool) -> Ty {
        match self.r.below(10) {
            0 | 1 | 2 => self.leaf_ty(b),
            8 if !fixed && !b.has_order() && !b.has_endian() && self.cfg.alloc => match self.r.below(3) {
                0 => Ty::Tup(vec![self.leaf_ty(b), Ty::CStr]),
                1 => Ty::Arr(Box::new(Ty::CStr), 2),
                _ => Ty::CStr,
            },
            9 if self.cfg.alloc && !b.has_order() => {
                let t = Box::new(self.leaf_ty(b));
                match self.r.below(4) {
                    0 => Ty::Boxed(t),
                    1 => Ty::Arc(t),
                    2 => Ty::Cow(t),
                    _ => Ty::Tup(vec![self.leaf_ty(b), Ty::Boxed(t), self.leaf_ty(b)]),
                }
            }
            3 if !b.has_order() => Ty::Tup(vec![self.leaf_ty(b), self.leaf_ty(b)]),
            4 => Ty::Arr(Box::new(self.leaf_ty(b)), 1 + self.r.below(3) as usize),
            _ => match self.child(b, |d| (!fixed || d.fixed_bits.is_some()) && !d.unordered) {
                Some(d) => Ty::Def(d),
                None => self.leaf_ty(b),
            },
        }
    }

    fn f_leaf(&mut self, b: &mut B) {
        let t = if self.r.chance(1, 16) && b.in_enum | !b.fields.is_empty() { Ty::Tup(vec![]) } else { self.leaf_ty(b) };
        let mut f = Field::new(t.clone());
        if matches!(t, Ty::Int { .. } | Ty::F32 | Ty::F64 | Ty::Nz { .. }) && self.r.chance(1, 2) {
            f.endian = self.ef();
        }
        let bits = ty_bits(&t, None, None, &self.defs);
        b.push(f, bits, None);
    }

    fn f_arr(&mut self, b: &mut B) {
        let mut e = self.leaf_ty(b);
        let mut bits = None;
        if self.cfg.bits && self.r.chance(1, 3) && !b.has_order() {
            e = uint(*self.r.pick(&[8, 16, 32]));
            let Ty::Int { w, .. } = e else { unreachable!() };
            bits = Some(1 + self.r.below(w as u64) as u32);
        }
        let n = if self.r.chance(1, 16) { 0 } else { 1 + self.r.below(4) as usize };
        let t = match self.r.below(7) {
            6 if !b.has_order() && bits.is_none() => {
                let k = 5 + self.r.below(3);
                Ty::Tup((0..k).map(|_| self.leaf_ty(b)).collect())
            }
            0 if !b.has_order() && bits.is_none() => Ty::Tup(vec![e.clone(), self.leaf_ty(b), U8]),
            0 | 6 if bits.is_some() => {
                // the size goes for every element
                let inner = if self.r.chance(1, 2) { Ty::Tup(vec![e.clone(), e.clone()]) } else { Ty::Arr(Box::new(e.clone()), n) };
                Ty::Tup(vec![e.clone(), uint(32), inner])
            }
            1 => Ty::Arr(Box::new(Ty::Arr(Box::new(e.clone()), 2)), n),
            _ => Ty::Arr(Box::new(e.clone()), n),
        };
        let mut f = Field::new(t.clone());
        f.bits = bits;
        if matches!(e, Ty::Int { .. }) && (bits.is_some() || !matches!(t, Ty::Tup(_))) && self.r.chance(1, 2) {
            f.endian = self.ef();
        }
        let sz = ty_bits(&t, f.bits, None, &self.defs);
        b.push(f, sz, None);
    }

    fn f_child(&mut self, b: &mut B) {
        let Some(d) = self.child(b, |_| true) else { return self.f_int(b) };
        let t = Ty::Def(d);
        let t = match self.r.below(7) {
            0 if self.cfg.alloc => Ty::Boxed(Box::new(t)),
            1 => Ty::Arr(Box::new(t), 2),
            2 if self.cfg.alloc => Ty::Arc(Box::new(t)),
            3 if self.cfg.alloc => Ty::Cow(Box::new(t)),
            _ => t,
        };
        self.note_child(b, &t);
        if !matches!(t, Ty::Def(_) | Ty::Arr(..)) {
            b.size_ok = false;
        }
        let (s, m) = (ty_bits(&t, None, None, &self.defs), ty_mod8(&t, None, None, &self.defs));
        let mut f = Field::new(t);
        if let CtxK::NDefault(_) = self.defs[d].ctx {
            // no ctx handed down: the default applies
            f.ctx = None;
        }
        b.push(f, s, m);
    }

    /// child with a custom context value
    fn f_ctx_child(&mut self, b: &mut B) {
        if b.small.is_empty() || b.has_order() {
            return self.f_int(b);
        }
        let e = b.has_endian();
        let al = b.align;
        let Some(d) = self.find(|d| {
            !d.greedy
                && !d.seeky
                && (!d.need_align || al == Some(0))
                && match d.ctx {
                    CtxK::N | CtxK::NDefault(_) => !e,
                    CtxK::EndianN => e,
                    _ => false,
                }
        }) else {
            return self.f_int(b);
        };
        let i = *self.r.pick(&b.small);
        let t = Ty::Def(d);
        self.note_child(b, &t);
        let (s, m) = (ty_bits(&t, None, None, &self.defs), ty_mod8(&t, None, None, &self.defs));
        let mut f = Field::new(t);
        f.ctx = Some(Ex::And(Box::new(if b.seeky || !self.r.chance(1, 4) { Ex::F(i) } else if self.r.chance(1, 2) { Ex::ByteOff } else { Ex::BitOff }), 3));
        b.size_ok = false;
        b.push(f, s, m);
    }

    /// key of a map or element of a set
    fn hash_ty(&mut self) -> Ty {
        match self.r.below(8) {
            0 => Ty::Arr(Box::new(U8), 1 + self.r.below(3) as usize),
            1 => Ty::Tup(vec![U8, uint(16)]),
            2 => Ty::Ip4,
            3 => Ty::Bool,
            4 => U8,
            _ => self.rint(),
        }
    }

    fn f_list(&mut self, b: &mut B, last: bool) {
        if !self.cfg.alloc {
            return if self.r.chance(1, 2) { self.f_arr(b) } else { self.f_child(b) };
        }
        b.size_ok = false;
        b.has_limit = true;
        let kind = self.r.below(if last { 10 } else { 7 });
        let lsb = b.has_order();
        match kind {
            0 | 1 | 2 => {
                // count
                let hash = self.cfg.std && !lsb && self.r.chance(1, 6);
                let byte_vec = !hash && self.r.chance(1, 3);
                let style = self.r.below(4);
                let mut e = if byte_vec { U8 } else if hash { self.hash_ty() } else { self.elem_ty(b, false) };
                let mut f_bits = None;
                if !byte_vec && !hash && self.cfg.bits && !lsb && self.r.chance(1, 4) {
                    e = uint(*self.r.pick(&[8, 16, 32]));
                    let Ty::Int { w, .. } = e else { unreachable!() };
                    f_bits = Some(1 + self.r.below(w as u64) as u32);
                }
                let lim = match style {
                    0 if !b.small.is_empty() => {
                        let i = *self.r.pick(&b.small);
                        Ex::And(Box::new(Ex::F(i)), 7)
                    }
                    1 if b.n_ctx => Ex::And(Box::new(Ex::N), 3),
                    2 => Ex::C(self.r.below(5) as i64),
                    1 if !b.seeky => Ex::And(Box::new(Ex::ByteOff), 3),
                    _ => {
                        let i = self.f_small(b, Hint::Range(0, 6));
                        Ex::F(i)
                    }
                };
                let al = b.align;
                self.note_child(b, &e);
                let mt = Ty::Vec(Box::new(e.clone()));
                let t = match if hash { 1 + self.r.below(2) } else { self.r.below(8) } {
                    0 if !byte_vec && self.r.chance(1, 3) => Ty::ArcSlice(Box::new(e.clone())),
                    0 if !byte_vec => Ty::BoxSlice(Box::new(e.clone())),
                    1 if self.cfg.std && !lsb && f_bits.is_none() && hashable(&e) => {
                        b.unordered = true;
                        b.canonical = false;
                        Ty::Set(Box::new(e.clone()))
                    }
                    2 if self.cfg.std && !lsb && f_bits.is_none() && hashable(&e) => {
                        b.unordered = true;
                        b.canonical = false;
                        Ty::Map(Box::new(e.clone()), Box::new(uint(16)))
                    }
                    _ => mt,
                };
                if needs_align(&e, &self.defs) && al != Some(0) {
                    return self.f_int(b);
                }
                let mut f = Field::new(t);
                f.limit = Limit::Count(lim.clone());
                f.bits = f_bits;
                if matches!(e, Ty::Int { .. }) && !byte_vec && self.r.chance(1, 2) && !matches!(f.ty, Ty::Map(..)) {
                    f.endian = self.ef();
                }
                let es = ty_bits(&e, f_bits, None, &self.defs);
                let (bits, m) = match (&lim, &f.ty, es) {
                    (Ex::C(n), Ty::Vec(_) | Ty::BoxSlice(_) | Ty::ArcSlice(_), Some(s)) => (Some(s * *n as usize), None),
                    (_, ty, _) => (None, ty_mod8(ty, f_bits, None, &self.defs)),
                };
                let i = b.push(f, bits, m);
                if let (Ex::F(c), true) = (&lim, self.r.chance(1, 2)) {
                    self.keep_len(b, *c, i);
                }
            }
            3 => {
                // until
                let e = if lsb || self.r.chance(2, 3) { uint(*self.r.pick(&[8, 8, 16, 32])) } else { Ty::Int { w: 16, s: true } };
                let t = match self.r.below(8) {
                    0 => Ty::BoxSlice(Box::new(e)),
                    1 => Ty::ArcSlice(Box::new(e)),
                    k if (k == 2 || k == 3) && self.cfg.std && !lsb => {
                        b.unordered = true;
                        b.canonical = false;
                        if k == 2 { Ty::Set(Box::new(e)) } else { Ty::Map(Box::new(e), Box::new(uint(16))) }
                    }
                    _ => Ty::Vec(Box::new(e)),
                };
                let mut f = Field::new(t);
                f.limit = Limit::Until(self.r.below(5) as i64);
                f.hint = if self.r.chance(1, 2) { Some(Hint::Range(0, 9)) } else { None };
                b.push(f, None, Some(0));
            }
            4 => {
                // until on a struct element
                let c = self.child(b, |d| d.named && until_ok(d));
                match c {
                    Some(d) => {
                        let t = Ty::Vec(Box::new(Ty::Def(d)));
                        self.note_child(b, &t);
                        let Body::Struct(fs) = &self.defs[d].body else { unreachable!() };
                        let k = match &fs[0].hint {
                            Some(Hint::Range(lo, hi)) => lo + self.r.below((hi - lo + 1) as u64) as i64,
                            _ => 0,
                        };
                        let m = ty_mod8(&t, None, None, &self.defs);
                        let mut f = Field::new(t);
                        f.limit = Limit::UntilF0(k);
                        b.push(f, None, m);
                    }
                    None => self.f_int(b),
                }
            }
            5 | 6 => {
                // size-limited
                let mut fb = None;
                let hash = self.cfg.std && !lsb && self.r.chance(1, 4);
                let mut e = if hash { self.hash_ty() } else { self.elem_ty(b, true) };
                if !hash && self.cfg.bits && !lsb && self.r.chance(1, 3) {
                    e = uint(*self.r.pick(&[8, 16]));
                    fb = Some(1 + self.r.below(8) as u32);
                }
                let Some(mut es) = ty_bits(&e, fb, None, &self.defs) else { return self.f_int(b) };
                let map = self.cfg.std && !lsb && fb.is_none() && hashable(&e) && self.r.chance(if hash { 4 } else { 1 }, 8);
                if map {
                    es += 16;
                }
                if es == 0 {
                    return self.f_int(b);
                }
                let bytes = es % 8 == 0 && (kind == 5 || !self.cfg.bits);
                if !bytes && !self.cfg.bits {
                    return self.f_int(b);
                }
                let unit = if bytes { es / 8 } else { es };
                if unit > 60 {
                    return self.f_int(b);
                }
                let k = 3.min(250 / unit as i64);
                let i = if self.r.chance(1, 3) {
                    None
                } else {
                    Some(self.f_small(b, Hint::Mult(unit as i64, k)))
                };
                let lim = match i {
                    None => Ex::C(unit as i64 * self.r.below(4) as i64),
                    Some(i) => Ex::F(i),
                };
                if needs_align(&e, &self.defs) && b.align != Some(0) {
                    return self.f_int(b);
                }
                self.note_child(b, &e);
                let t = if map {
                    b.unordered = true;
                    b.canonical = false;
                    Ty::Map(Box::new(e), Box::new(uint(16)))
                } else if self.cfg.std && !lsb && fb.is_none() && hashable(&e) && (hash || self.r.chance(1, 6)) {
                    b.unordered = true;
                    b.canonical = false;
                    Ty::Set(Box::new(e))
                } else if self.r.chance(1, 8) {
                    Ty::BoxSlice(Box::new(e))
                } else {
                    Ty::Vec(Box::new(e))
                };
                let m = ty_mod8(&t, fb, None, &self.defs);
                let mut f = Field::new(t);
                f.bits = fb;
                f.limit = if bytes { Limit::Bytes(lim.clone()) } else { Limit::Bits(lim.clone()) };
                b.uses_bits |= !bytes;
                let fx = match (&lim, &f.ty) {
                    (Ex::C(c), Ty::Vec(_) | Ty::BoxSlice(_)) => Some(*c as usize * if bytes { 8 } else { 1 }),
                    _ => None,
                };
                b.push(f, fx, m);
            }
            _ => {
                // read_all, last field only
                if b.align != Some(0) {
                    return self.f_int(b);
                }
                let hash = self.cfg.std && !lsb && self.r.chance(1, 3);
                let e = if hash { self.hash_ty() } else { self.elem_ty(b, false) };
                if ty_mod8(&e, None, None, &self.defs) != Some(0) {
                    return self.f_int(b);
                }
                self.note_child(b, &e);
                let t = if self.cfg.std && !lsb && hashable(&e) && (hash || self.r.chance(1, 6)) {
                    b.unordered = true;
                    b.canonical = false;
                    if self.r.chance(1, 2) {
                        Ty::Set(Box::new(e))
                    } else {
                        Ty::Map(Box::new(e), Box::new(uint(16)))
                    }
                } else if self.r.chance(1, 8) {
                    Ty::BoxSlice(Box::new(e))
                } else {
                    Ty::Vec(Box::new(e))
                };
                let mut f = Field::new(t);
                f.limit = Limit::All;
                b.greedy = true;
                b.push(f, None, Some(0));
            }
        }
    }

    fn cond_ex(&mut self, b: &B) -> Option<Ex> {
        if b.small.is_empty() {
            return None;
        }
        let i = *self.r.pick(&b.small);
        if !b.seeky && self.r.chance(1, 8) {
            return Some(match self.r.below(2) {
                0 => Ex::Eq(Box::new(Ex::And(Box::new(Ex::ByteOff), 1)), 1),
                _ => Ex::Lt(Box::new(Ex::And(Box::new(Ex::BitOff), 31)), 16),
            });
        }
        Some(match self.r.below(3) {
            0 => Ex::Eq(Box::new(Ex::And(Box::new(Ex::F(i)), 1)), 0),
            1 => Ex::Lt(Box::new(Ex::And(Box::new(Ex::F(i)), 15)), 8),
            _ => Ex::Eq(Box::new(Ex::And(Box::new(Ex::F(i)), 1)), 1),
        })
    }

    fn f_misc(&mut self, b: &mut B) {
        let so = b.size_ok;
        b.size_ok = false;
        let lsb = b.has_order();
        match self.r.below(17) {
            0 | 1 => {
                // optional
                let Some(c) = self.cond_ex(b) else { return self.f_int(b) };
                let e = self.elem_ty(b, false);
                if needs_align(&e, &self.defs) && b.align != Some(0) {
                    return self.f_int(b);
                }
                self.note_child(b, &e);
                let t = Ty::Opt(Box::new(e.clone()));
                let m = ty_mod8(&t, None, None, &self.defs);
                let mut f = Field::new(t);
                f.cond = Some(c);
                if matches!(e, Ty::Int { .. }) && self.r.chance(1, 2) {
                    f.endian = self.ef();
                }
                b.push(f, None, m);
            }
            2 => {
                // skip if cond, with default
                let Some(c) = self.cond_ex(b) else { return self.f_int(b) };
                let w = *self.r.pick(&[8, 16, 32]);
                let mut f = Field::new(uint(w));
                f.skip = Skip::All;
                f.cond = Some(c);
                f.default = Some(self.r.below(200) as i64);
                if self.r.chance(1, 2) {
                    f.skip = if self.r.chance(1, 2) { Skip::Read } else { Skip::Write };
                    b.canonical = false;
                }
                self.maybe_update(b, &mut f);
                b.push(f, None, Some(0));
            }
            3 => {
                // skipped field
                let mut f = Field::new(uint(*self.r.pick(&[8, 16, 32])));
                f.skip = Skip::All;
                if self.r.chance(1, 2) {
                    f.default = Some(self.r.below(200) as i64);
                }
                self.maybe_update(b, &mut f);
                b.size_ok = so;
                b.push(f, Some(0), None);
            }
            15 => self.f_dyn(b),
            16 if !lsb && !b.has_endian() && self.cfg.alloc => {
                let i = self.f_small(b, Hint::Range(1, 9));
                let mut f = Field::new(Ty::CStrN);
                f.bytes_ex = Some(Ex::F(i));
                b.has_limit = true;
                b.push(f, None, Some(0));
            }
            14 if !lsb => {
                // constant that is not stored
                let mut f = Field::new(U8);
                let k = self.r.below(200) as i64;
                f.temp = Some(Ex::C(k));
                f.hint = Some(Hint::OneOf(vec![k]));
                if !b.seeky && self.r.chance(1, 3) {
                    // the position: any value is accepted when read
                    f.temp = Some(Ex::And(Box::new(if self.r.chance(1, 2) { Ex::ByteOff } else { Ex::BitOff }), 127));
                    f.hint = None;
                }
                b.canonical = false;
                b.size_ok = so;
                b.push(f, Some(8), None);
            }
            4 => {
                // read but not written (decode only) / written but not read are
                // asymmetric by design
                let mut f = Field::new(uint(8));
                f.skip = if self.r.chance(1, 2) { Skip::Write } else { Skip::Read };
                f.default = Some(self.r.below(100) as i64);
                self.maybe_update(b, &mut f);
                b.canonical = false;
                b.push(f, if self.r.chance(1, 2) { Some(8) } else { None }, Some(0));
                b.fixed = None;
                b.align = b.align.filter(|_| true);
            }
            5 => {
                let mut f = Field::new(uint(*self.r.pick(&[8, 16])));
                let k = 100 + self.r.below(50) as i64;
                let i = b.fields.len();
                f.assert = Some(Ex::Lt(Box::new(Ex::F(i)), k));
                f.hint = Some(Hint::Range(0, k - 1));
                b.size_ok = so;
                let bits = ty_bits(&f.ty, None, None, &self.defs);
                let i = b.push(f, bits, None);
                b.small.push(i);
            }
            6 => {
                let mut f = Field::new(uint(*self.r.pick(&[8, 16])));
                let k = self.r.below(100) as i64;
                f.assert_eq = Some(k);
                f.hint = Some(Hint::OneOf(vec![k]));
                b.size_ok = so;
                let bits = ty_bits(&f.ty, None, None, &self.defs);
                let i = b.push(f, bits, None);
                b.small.push(i);
            }
            7 if !lsb => {
                let mut f = Field::new(uint(32));
                f.special = Special::U24;
                b.push(f, Some(24), None);
            }
            8 if !lsb => {
                let mut f = Field::new(U8);
                f.special = if self.r.chance(1, 2) {
                    Special::MapXor(self.r.below(256) as u8)
                } else {
                    Special::MapLt(20 + self.r.below(200) as u8)
                };
                let i = b.push(f, Some(8), None);
                b.small.push(i);
            }
            9 if !lsb => {
                let mut f = Field::new(uint(*self.r.pick(&[8, 16])));
                let n = 1 + self.r.below(3) as usize;
                f.magic = (0..n).map(|_| self.r.below(256) as u8).collect();
                b.size_ok = so;
                let bits = ty_bits(&f.ty, None, None, &self.defs);
                b.push(f, bits, None);
            }
            10 if !lsb && !b.has_endian() && self.cfg.alloc => {
                let f = Field::new(Ty::CStr);
                b.push(f, None, Some(0));
            }
            11 => {
                // update: a length field kept up to date
                if !self.cfg.alloc {
                    return self.f_int(b);
                }
                self.f_update(b);
            }
            12 => {
                // temp length
                if lsb || !self.cfg.alloc {
                    return self.f_int(b);
                }
                let li = b.fields.len();
                let mut lf = Field::new(U8);
                lf.hint = Some(Hint::Range(0, 6));
                lf.temp = Some(Ex::Len(li + 1));
                b.push(lf, Some(8), None);
                let e = if self.r.chance(1, 2) { U8 } else { uint(16) };
                let mut f = Field::new(Ty::Vec(Box::new(e)));
                f.limit = Limit::Count(Ex::F(li));
                b.push(f, None, Some(0));
                b.has_limit = true;
            }
            _ => {
                if lsb {
                    return self.f_int(b);
                }
                let e = Ty::Tracked;
                let mut f = Field::new(match self.r.below(4) {
                    0 => Ty::Arr(Box::new(e), 2 + self.r.below(3) as usize),
                    1 => Ty::Tup(vec![e.clone(), U8, e]),
                    2 if self.cfg.alloc => Ty::Boxed(Box::new(e)),
                    3 if self.cfg.alloc => Ty::Vec(Box::new(e)),
                    _ => Ty::Arr(Box::new(e), 1),
                });
                if matches!(f.ty, Ty::Vec(_)) {
                    f.limit = Limit::Count(Ex::C(1 + self.r.below(4) as i64));
                    b.has_limit = true;
                }
                b.tracked = true;
                let n = match &f.ty {
                    Ty::Arr(_, n) => *n,
                    Ty::Tup(_) => 3,
                    Ty::Boxed(_) => 1,
                    _ => match &f.limit {
                        Limit::Count(Ex::C(c)) => *c as usize,
                        _ => 0,
                    },
                };
                b.push(f, Some(n * 8), None);
            }
        }
    }

    /// a number as wide as an earlier field says
    fn f_dyn(&mut self, b: &mut B) {
        let lsb = b.has_order();
        b.size_ok = false;
        if b.small.is_empty() || self.r.chance(1, 4) {
            self.f_small(b, Hint::Range(0, 140));
        }
        if b.small.is_empty() {
            return;
        }
        if self.cfg.bits && (lsb || self.r.chance(2, 3)) {
            // as many bits as an earlier field says: none at all, or more than fit, too
            let i = *self.r.pick(&b.small);
            let w = *self.r.pick(&[8u32, 8, 16, 32, 64, 128]);
            let s = self.r.chance(1, 3);
            let mut f = Field::new(match self.r.below(8) {
                0 => Ty::Usz { s },
                1 => Ty::Bool,
                2 if self.cfg.alloc => Ty::Nz { w: w.min(64), s },
                _ => Ty::Int { w, s },
            });
            let w = match &f.ty {
                Ty::Usz { .. } => 64,
                Ty::Bool => 8,
                Ty::Nz { w, .. } | Ty::Int { w, .. } => *w,
                _ => unreachable!(),
            };
            let m = match self.r.below(5) {
                0 => 2 * w as i64 - 1,
                1 => 7,
                _ => w as i64 - 1,
            };
            let e = Ex::And(Box::new(Ex::F(i)), m);
            f.bits_ex = Some(if self.r.chance(1, 2) || matches!(f.ty, Ty::Nz { .. }) { Ex::Add(Box::new(e), 1) } else { e });
            if lsb {
                f.endian = Some(En::Le);
            } else if self.r.chance(1, 2) || matches!(f.ty, Ty::Nz { .. }) {
                f.endian = Some(if self.r.chance(1, 2) { En::Be } else { En::Le });
            }
            b.uses_bits = true;
            b.push(f, None, None);
        } else if !lsb {
            // as many bytes as an earlier field says
            let i = *self.r.pick(&b.small);
            let w = *self.r.pick(&[16u32, 32, 32, 64, 64, 128]);
            let s = self.r.chance(1, 3);
            let mut f = Field::new(Ty::Int { w, s });
            let m = if self.r.chance(1, 4) { 2 * w as i64 / 8 - 1 } else { w as i64 / 8 - 1 };
            let e = Ex::And(Box::new(Ex::F(i)), m);
            f.bytes_ex = Some(if self.r.chance(1, 2) { Ex::Add(Box::new(e), 1) } else { e });
            if self.r.chance(1, 2) {
                f.endian = self.ef();
            }
            b.push(f, None, Some(0));
        }
    }

    /// `c` is the number of elements of `l`: keep it up to date
    fn keep_len(&mut self, b: &mut B, c: usize, l: usize) {
        let f = &mut b.fields[c];
        if !matches!(f.ty, Ty::Int { s: false, .. }) || f.special != Special::No || f.skip != Skip::No || f.update.is_some() || f.temp.is_some() {
            return;
        }
        f.update = Some(Ex::Len(l));
        b.has_update = true;
        self.follow(b, c);
    }

    /// Often a further field that follows field `i`, which is updated before it.
    fn follow(&mut self, b: &mut B, i: usize) {
        let Ty::Int { w: 8..=32, s: false } = b.fields[i].ty else { return };
        if !self.r.chance(1, 2) {
            return;
        }
        let mut f = Field::new(uint(*self.r.pick(&[8, 8, 16])));
        let l = Ex::And(Box::new(Ex::F(i)), 63);
        f.update = Some(match self.r.below(3) {
            0 => Ex::F(i),
            1 => Ex::Add(Box::new(l), self.r.below(30) as i64),
            _ => Ex::Mul(Box::new(l), 1 + self.r.below(3) as i64),
        });
        let bits = ty_bits(&f.ty, None, None, &self.defs);
        b.push(f, bits, None);
    }

    fn f_update(&mut self, b: &mut B) {
        let li = b.fields.len();
        let lsb = b.has_order();
        let mut lf = Field::new(uint(*self.r.pick(&[8, 8, 16, 32])));
        let ew = *self.r.pick(&[8, 16, 32]);
        let style = self.r.below(6);
        let (limit, hint) = match style {
            0 | 1 => {
                // the size in bytes
                let k = ew as i64 / 8;
                lf.update = Some(Ex::Mul(Box::new(Ex::Len(li + 1)), k));
                (Limit::Bytes(Ex::F(li)), Hint::Mult(k, 3))
            }
            2 => {
                // one more than the number of elements
                lf.update = Some(Ex::Add(Box::new(Ex::Len(li + 1)), 1));
                (Limit::Count(Ex::Add(Box::new(Ex::F(li)), -1)), Hint::Range(1, 6))
            }
            _ => {
                lf.update = Some(Ex::Len(li + 1));
                (Limit::Count(Ex::F(li)), Hint::Range(0, 6))
            }
        };
        lf.hint = Some(hint);
        if self.cfg.bits && !lsb && style > 2 && self.r.chance(1, 3) {
            lf.bits = Some(4 + self.r.below(5) as u32);
        } else if self.r.chance(1, 2) {
            lf.endian = self.ef();
        }
        let bits = ty_bits(&lf.ty, lf.bits, None, &self.defs);
        let i = b.push(lf, bits, None);
        let e = Box::new(uint(ew));
        let mut f = Field::new(match self.r.below(8) {
            0 => Ty::BoxSlice(e),
            1 if style > 1 => Ty::ArcSlice(e),
            _ => Ty::Vec(e),
        });
        f.limit = limit;
        b.push(f, None, Some(0));
        if style > 2 {
            b.small.push(i);
        }
        self.follow(b, i);
        b.has_update = true;
        b.has_limit = true;
        b.size_ok = false;
    }

    fn maybe_update(&mut self, b: &mut B, f: &mut Field) {
        if self.r.chance(1, 3) {
            f.update = Some(if b.small.is_empty() || self.r.chance(1, 3) {
                Ex::C(self.r.below(120) as i64)
            } else {
                // often of a field that is updated itself
                let u: Vec<usize> = b.small.iter().copied().filter(|i| b.fields[*i].update.is_some()).collect();
                let i = if !u.is_empty() && self.r.chance(1, 2) { *self.r.pick(&u) } else { *self.r.pick(&b.small) };
                Ex::Add(Box::new(Ex::And(Box::new(Ex::F(i)), 63)), self.r.below(30) as i64)
            });
            b.has_update = true;
        }
    }

    /// A field that takes bits from the stream whatever came before it.
    fn consumes(&self, f: &Field) -> bool {
        f.skip == Skip::No
            && f.cond.is_none()
            && f.limit == Limit::None
            && (match &f.ty {
                Ty::Def(d) => !matches!(self.defs[*d].body, Body::Enum { id_ty: None, .. }),
                t => matches!(t, Ty::CStr | Ty::CStrN),
            } || ty_bits(&f.ty, f.bits, f.bytes, &self.defs).is_some_and(|b| b > 0))
    }

    fn f_pad(&mut self, b: &mut B) {
        let mut f = Field::new(if self.r.chance(1, 2) { U8 } else { uint(16) });
        let nbits = |r: &mut Sm| 1 + r.below(20) as u32;
        let bits = self.cfg.bits;
        for side in 0..2 {
            if self.r.chance(1, 2) {
                continue;
            }
            let bytes = match self.r.below(3) {
                0 if !b.small.is_empty() => {
                    b.size_ok = false;
                    let i = *self.r.pick(&b.small);
                    Ex::And(Box::new(Ex::F(i)), 3)
                }
                _ => {
                    if self.r.chance(1, 12) {
                        Ex::C(60 + self.r.below(80) as i64)
                    } else {
                        Ex::C(1 + self.r.below(4) as i64)
                    }
                }
            };
            let k = self.r.below(3);
            if side == 0 {
                if k != 0 || !bits {
                    f.pad_bytes_before = Some(bytes);
                } else {
                    f.pad_bits_before = nbits(&mut self.r);
                }
            } else if k != 0 || !bits {
                f.pad_bytes_after = Some(bytes);
            } else {
                f.pad_bits_after = nbits(&mut self.r);
            }
        }
        let s = ty_bits(&f.ty, None, None, &self.defs);
        b.push(f, s, None);
    }

    fn f_seek(&mut self, b: &mut B, i: u64) {
        b.size_ok = false;
        b.seeky = true;
        b.canonical = false;
        let mut f = Field::new(if self.r.chance(1, 2) { U8 } else { uint(16) });
        let unfinished = b.fields.last().is_some_and(|f| f.bits.is_some());
        f.seek = Some(match self.r.below(6) {
            _ if unfinished && self.r.chance(1, 2) => Seek::Cur(self.r.below(2) as i64),
            0 => Seek::Rewind,
            1 => Seek::Start(self.r.below(8)),
            2 => Seek::Cur(self.r.below(3) as i64),
            3 if i > 0 => Seek::Cur(-(1 + self.r.below(2) as i64)),
            4 => {
                let c: Vec<usize> = b.small.iter().copied().filter(|i| b.fields[*i].ty == U8 && b.fields[*i].bits.is_none()).collect();
                if c.is_empty() {
                    Seek::Start(self.r.below(12))
                } else if self.r.chance(1, 2) {
                    Seek::StartF(*self.r.pick(&c))
                } else {
                    Seek::CurF(*self.r.pick(&c))
                }
            }
            5 if self.r.chance(1, 2) => Seek::End(-(self.r.below(4) as i64)),
            _ => Seek::Cur(self.r.below(6) as i64),
        });
        b.fixed = None;
        // an unfinished byte is given up
        b.align = Some(0);
        if self.cfg.alloc && !b.small.is_empty() && self.r.chance(1, 5) {
            // possibly nothing is read there
            let i = *self.r.pick(&b.small);
            f.ty = Ty::Vec(Box::new(U8));
            f.limit = Limit::Count(Ex::And(Box::new(Ex::F(i)), 1));
            b.push(f, None, Some(0));
            return;
        }
        let s = ty_bits(&f.ty, None, None, &self.defs);
        b.push(f, s, None);
        b.fixed = None;
    }

    fn finish(&mut self, b: B, tag: &'static str, ctx: CtxK, magic: Vec<u8>, seek: Option<Seek>) -> usize {
        let idx = self.defs.len();
        let mut fixed = b.fixed;
        if let Some(f) = &mut fixed {
            *f += magic.len() * 8;
        }
        let lsb = b.order == Some(Or::Lsb) || b.order_ctx;
        let m8 = b.align;
        // one of the fields has the type of a parameter
        let mut generic = None;
        if b.named && !b.has_order() && b.fields.iter().all(|f| f.temp.is_none()) && self.r.chance(1, 2) {
            generic = b.fields.iter().position(|f| match &f.ty {
                Ty::Def(d) => self.defs[*d].ctx == CtxK::None && f.ctx.is_none() && f.limit == Limit::None && f.skip == Skip::No && !b.has_endian(),
                _ => false,
            });
        }
        let d = Def {
            idx,
            tag,
            endian: b.endian,
            order: b.order,
            magic,
            ctx,
            seek: seek.clone(),
            named: b.named,
            greedy: b.greedy,
            seeky: b.seeky || seek.is_some(),
            fixed_bits: if b.seeky { None } else { fixed },
            size_mod8: m8,
            unordered: b.unordered,
            need_align: b.need_align || (lsb && !b.order_ctx),
            bytewise: m8 == Some(0),
            size_derive: b.size_ok && generic.is_none() && fixed.is_some() && !b.seeky && seek.is_none(),
            has_update: b.has_update,
            canonical: b.canonical,
            tracked: b.tracked,
            uses_bits: b.uses_bits || b.has_order(),
            top: matches!(ctx, CtxK::None | CtxK::NDefault(_)),
            has_limit: b.has_limit,
            has_enum: b.has_enum,
            has_pad: b.has_pad,
            has_lsb: false,
            has_gate: false,
            has_off: false,
            until_set: false,
            generic,
            body: Body::Struct(b.fields),
        };
        self.defs.push(d);
        idx
    }

    fn b_common(&mut self) -> (B, CtxK) {
        let mut b = B::new(self.r.next(), self.cfg.bits);
        let mut ctx = CtxK::None;
        match self.r.below(8) {
            0 | 1 => b.endian = Some(if self.r.chance(1, 2) { En::Be } else { En::Le }),
            2 | 3 => {
                b.endian_ctx = true;
                ctx = CtxK::Endian;
            }
            _ => {}
        }
        b.named = self.r.chance(3, 4);
        (b, ctx)
    }

    fn g_struct(&mut self, tag: &'static str) {
        let (mut b, mut ctx) = self.b_common();
        let mut magic = vec![];
        let n = 2 + self.r.below(6);
        match tag {
            "plain" => {
                for _ in 0..n {
                    match self.r.below(5) {
                        0 | 1 => self.f_int(&mut b),
                        2 => self.f_arr(&mut b),
                        3 => self.f_child(&mut b),
                        _ => self.f_leaf(&mut b),
                    }
                }
            }
            "bits" => {
                for _ in 0..n + 1 {
                    match self.r.below(11) {
                        9 | 10 => self.f_dyn(&mut b),
                        0..=3 => self.f_bits(&mut b),
                        4 => self.f_int(&mut b),
                        5 => self.f_arr(&mut b),
                        6 => self.f_child(&mut b),
                        7 => self.f_list(&mut b, false),
                        _ => self.f_leaf(&mut b),
                    }
                }
            }
            "lsb" => {
                if ctx == CtxK::Endian && self.r.chance(1, 2) {
                    ctx = CtxK::EndianOrder;
                    b.order_ctx = true;
                } else {
                    b.endian_ctx = false;
                    ctx = CtxK::None;
                    if b.endian.is_none() && self.r.chance(1, 4) {
                        ctx = CtxK::Order;
                        b.order_ctx = true;
                    } else {
                        b.order = Some(if self.r.chance(5, 6) { Or::Lsb } else { Or::Msb });
                    }
                }
                b.size_ok = true;
                for _ in 0..n + 1 {
                    match self.r.below(11) {
                        10 => self.f_dyn(&mut b),
                        0..=3 => self.f_bits(&mut b),
                        4 => self.f_int(&mut b),
                        5 => self.f_arr(&mut b),
                        6 => self.f_child(&mut b),
                        7 => self.f_misc(&mut b),
                        8 if b.order.is_some() => self.f_pad(&mut b),
                        _ => self.f_list(&mut b, false),
                    }
                }
                b.uses_bits = true;
            }
            "list" => {
                let n = 1 + self.r.below(3);
                if self.r.chance(1, 2) {
                    self.f_int(&mut b);
                }
                for i in 0..n {
                    self.f_list(&mut b, i == n - 1);
                }
            }
            "misc" => {
                if self.r.chance(1, 4) && !b.has_endian() {
                    b.n_ctx = true;
                    ctx = if self.r.chance(1, 2) { CtxK::N } else { CtxK::NDefault(self.r.below(4) as u8) };
                } else if self.r.chance(1, 4) && ctx == CtxK::Endian {
                    b.n_ctx = true;
                    ctx = CtxK::EndianN;
                }
                if self.r.chance(1, 4) {
                    magic = (0..1 + self.r.below(4)).map(|_| self.r.below(256) as u8).collect();
                }
                self.f_int(&mut b);
                for _ in 0..n {
                    match self.r.below(7) {
                        6 => self.f_dyn(&mut b),
                        0..=2 => self.f_misc(&mut b),
                        3 => self.f_ctx_child(&mut b),
                        4 => self.f_list(&mut b, false),
                        _ => self.f_int(&mut b),
                    }
                }
            }
            "pad" => {
                self.f_int(&mut b);
                for _ in 0..n {
                    match self.r.below(5) {
                        0..=2 => self.f_pad(&mut b),
                        3 => self.f_child(&mut b),
                        _ => self.f_int(&mut b),
                    }
                }
                if self.r.chance(1, 3) {
                    magic = vec![self.r.below(256) as u8];
                }
            }
            "seek" => {
                b.endian_ctx = false;
                ctx = CtxK::None;
                self.f_int(&mut b);
                for i in 0..1 + n / 2 {
                    match self.r.below(5) {
                        0 | 1 | 2 => self.f_seek(&mut b, i),
                        3 if self.cfg.bits => self.f_bits(&mut b),
                        _ => self.f_int(&mut b),
                    }
                }
                if self.r.chance(1, 5) {
                    let s = match self.r.below(6) {
                        0 => Seek::Rewind,
                        1 => Seek::Cur(self.r.below(4) as i64),
                        2 => Seek::End(-(self.r.below(4) as i64)),
                        _ => Seek::Start(self.r.below(4)),
                    };
                    b.seeky = true;
                    self.finish(b, tag, ctx, vec![], Some(s));
                    return;
                }
            }
            "greedy" => {
                self.f_int(&mut b);
                for _ in 0..5 {
                    if b.greedy {
                        break;
                    }
                    self.f_list(&mut b, true);
                }
            }
            _ => {
                for i in 0..n {
                    match self.r.below(9) {
                        8 => self.f_dyn(&mut b),
                        0 if self.cfg.bits => self.f_bits(&mut b),
                        0 | 1 => self.f_int(&mut b),
                        2 => self.f_arr(&mut b),
                        3 => self.f_child(&mut b),
                        4 => self.f_list(&mut b, i == n - 1),
                        5 => self.f_misc(&mut b),
                        6 => self.f_pad(&mut b),
                        _ => self.f_leaf(&mut b),
                    }
                    if b.greedy {
                        break;
                    }
                }
            }
        }
        if b.fields.is_empty() || b.fixed == Some(0) || magic.is_empty() && !b.greedy && !b.fields.iter().any(|f| self.consumes(f)) {
            self.f_int(&mut b);
        }
        self.finish(b, tag, ctx, magic, None);
    }

    fn g_enum(&mut self) {
        let idx = self.defs.len();
        let mut endian = None;
        let mut ctx = CtxK::None;
        match self.r.below(8) {
            0 | 1 => endian = Some(if self.r.chance(1, 2) { En::Be } else { En::Le }),
            2 => ctx = CtxK::Endian,
            3 => {
                ctx = match self.r.below(4) {
                    0 => CtxK::NDefault(self.r.below(4) as u8),
                    1 => CtxK::EndianN,
                    _ => CtxK::N,
                }
            }
            _ => {}
        }
        let n_ctx = matches!(ctx, CtxK::N | CtxK::NDefault(_) | CtxK::EndianN);
        // the context is the id, or only something the fields refer to
        let by_ctx = n_ctx && self.r.chance(2, 3);
        let order = if self.cfg.bits && !n_ctx && ctx == CtxK::None && self.r.chance(1, 6) { Some(if self.r.chance(4, 5) { Or::Lsb } else { Or::Msb }) } else { None };
        let mut id_endian = None;
        let (mut bits, mut bytes) = (None, None);
        let mut w = *self.r.pick(&[8, 8, 8, 16, 16, 32, 64]);
        let s = self.r.chance(1, 6);
        let byte_id = !by_ctx && self.r.chance(1, 8) && endian.is_none() && ctx == CtxK::None && order.is_none();
        let bool_id = !by_ctx && !byte_id && self.r.chance(1, 10);
        if bool_id && self.cfg.bits && self.r.chance(1, 2) {
            bits = Some(1);
        }
        // the id is a value of another enum
        let def_id = if by_ctx || byte_id || bool_id || !self.r.chance(1, 5) {
            None
        } else {
            let mut b = B::new(0, false);
            b.endian = endian;
            b.endian_ctx = matches!(ctx, CtxK::Endian | CtxK::EndianN);
            b.order = order;
            self.child(&b, |d| match &d.body {
                Body::Enum { id_ty: Some(t), variants, .. } => matches!(t, Ty::Int { .. } | Ty::Bool) && d.fixed_bits.is_some() && variants.len() > 1 && variants.iter().all(|v| v.fields.is_empty()),
                _ => false,
            })
        };
        if !by_ctx && !byte_id && !bool_id && def_id.is_none() {
            if self.r.chance(1, 4) {
                id_endian = self.ef();
            }
            if self.cfg.bits && self.r.chance(1, 3) && !s {
                bits = Some(2 + self.r.below(w as u64 - 2) as u32);
                if order == Some(Or::Lsb) && bits.unwrap() > 8 {
                    bits = bits.map(|b| b / 8 * 8);
                }
            } else if self.r.chance(1, 5) && w >= 16 && !s && order.is_none() {
                bytes = Some(1 + self.r.below((w / 8) as u64) as u32);
            }
        }
        if by_ctx || bool_id || def_id.is_some() {
            w = 8;
        }
        let s = s && !bool_id && def_id.is_none();
        let idw = bits.unwrap_or(bytes.map_or(w, |b| b * 8));
        let max: i128 = if bool_id { 1 } else if let Some(d) = def_id { n_variants(&self.defs[d]) as i128 - 1 } else if by_ctx { 3 } else { (1i128 << (idw.min(40) - if s { 1 } else { 0 })) - 1 };
        let nv = if bool_id { 2 } else { 2 + self.r.below(4) as usize };
        let mut variants: Vec<Variant> = vec![];
        let mut used: Vec<(i128, i128)> = vec![];
        let mut all = B::new(0, false);
        if let Some(d) = def_id {
            self.note_child(&mut all, &Ty::Def(d));
        }
        let mut sizes: Vec<Option<usize>> = vec![];
        let mut mods: Vec<Option<u32>> = vec![];
        let disc = !by_ctx && !byte_id && !bool_id && bits.is_none() && bytes.is_none() && def_id.is_none() && self.r.chance(if s { 1 } else { 0 } + 1, 4);
        let mut has_default = false;
        let mut size_ok = true;
        let start_align = if bits.is_some() || def_id.is_some_and(|d| self.defs[d].size_mod8 != Some(0)) { None } else { Some(0) };
        for vi in 0..nv {
            let last = vi == nv - 1;
            let pickf = |g: &mut G| -> Option<i128> {
                for _ in 0..20 {
                    let v = match g.r.below(4) {
                        0 => g.r.below(4) as i128,
                        1 => max,
                        2 => max / 2,
                        _ => g.r.below(max.min(1 << 30) as u64 + 1) as i128,
                    };
                    let v = if disc && s && g.r.chance(1, 2) { -v - 1 } else { v };
                    if v <= max && !used.iter().any(|(a, b)| *a <= v && v <= *b) {
                        return Some(v);
                    }
                }
                None
            };
            let mut vb = B::new(self.r.next(), self.cfg.bits);
            vb.endian = endian;
            vb.endian_ctx = matches!(ctx, CtxK::Endian | CtxK::EndianN);
            vb.order = order;
            vb.align = start_align;
            vb.n_ctx = n_ctx && !by_ctx;
            vb.in_enum = true;
            vb.named = self.r.chance(1, 2);
            let id;
            let mut store = false;
            if byte_id {
                let b: Vec<u8> = (0..2).map(|_| self.r.below(256) as u8).collect();
                if variants.iter().any(|v| v.id == VarId::Bytes(b.clone())) {
                    continue;
                }
                id = VarId::Bytes(b);
            } else if disc {
                let Some(v) = pickf(self) else { break };
                used.push((v, v));
                id = VarId::Disc(v);
            } else if bool_id {
                id = VarId::Int(vi as i128);
            } else if last && self.r.chance(1, 3) {
                id = VarId::Wild;
                store = !by_ctx;
                if by_ctx {
                    // value of the context is not stored
                    vb.canonical = true;
                }
            } else if !by_ctx && self.r.chance(1, 4) {
                let Some(v) = pickf(self) else { break };
                let mut hi = (v + self.r.below(6) as i128).min(max);
                for (a, _) in &used {
                    if *a > v && *a <= hi {
                        hi = *a - 1;
                    }
                }
                if last && self.r.chance(1, 2) && !s && def_id.is_none() && used.iter().all(|(_, b)| *b < v) {
                    hi = i128::MAX;
                }
                used.push((v, hi));
                id = if hi == i128::MAX {
                    VarId::Pat(v, hi)
                } else if def_id.is_some() || self.r.chance(1, 4) { VarId::PatSet(if hi > v { vec![v, hi] } else { vec![v] }) } else { VarId::Pat(v, hi) };
                store = true;
            } else {
                let Some(v) = pickf(self) else { break };
                used.push((v, v));
                id = VarId::Int(v);
            }
            if store {
                let mut f = Field::new(def_id.map_or(Ty::Int { w, s }, Ty::Def));
                f.id_store = true;
                vb.fields.push(f);
            }
            if !disc {
                for _ in 0..self.r.below(4) {
                    match self.r.below(7) {
                        0 | 1 => self.f_int(&mut vb),
                        2 => self.f_child(&mut vb),
                        3 if self.cfg.bits => self.f_bits(&mut vb),
                        4 => self.f_list(&mut vb, false),
                        5 if self.r.chance(1, 4) => self.f_dyn(&mut vb),
                        5 => self.f_misc(&mut vb),
                        _ => self.f_leaf(&mut vb),
                    }
                }
            }
            if !vb.fields.is_empty() && (vb.fields.iter().all(|f| f.temp.is_some()) || by_ctx && !vb.fields.iter().any(|f| self.consumes(f))) {
                self.f_int(&mut vb);
            }
            size_ok &= vb.size_ok;
            sizes.push(vb.fixed);
            mods.push(vb.fixed.map(|f| (f % 8) as u32).or(vb.align.filter(|_| start_align == Some(0))));
            all.unordered |= vb.unordered;
            all.canonical &= vb.canonical;
            all.tracked |= vb.tracked;
            all.uses_bits |= vb.uses_bits;
            all.need_align |= vb.need_align;
            all.has_update |= vb.has_update;
            all.has_limit |= vb.has_limit;
            all.has_pad |= vb.has_pad;
            let default = !disc && !bool_id && !by_ctx && !byte_id && !has_default && matches!(id, VarId::Int(_)) && self.r.chance(1, 12);
            if default {
                has_default = true;
                all.canonical = false;
            }
            variants.push(Variant { id, default, fields: vb.fields, named: vb.named });
        }
        if variants.iter().any(|v| v.id == VarId::Wild) && has_default {
            for v in &mut variants {
                v.default = false;
            }
        }
        let idbits = if by_ctx {
            0
        } else if byte_id {
            16
        } else if let Some(d) = def_id {
            self.defs[d].fixed_bits.unwrap()
        } else {
            idw as usize
        };
        let fixed = if sizes.iter().all(|s| s.is_some() && *s == sizes[0]) { sizes[0].map(|s| s + idbits) } else { None };
        let m0 = mods[0];
        let m8 = if m0.is_some() && mods.iter().all(|m| *m == m0) { m0.map(|m| (m + idbits as u32) % 8) } else { None };
        let magic: Vec<u8> = if self.r.chance(1, 8) { vec![self.r.below(256) as u8] } else { vec![] };
        let fixed = fixed.map(|f| f + magic.len() * 8);
        if by_ctx && fixed == Some(0) {
            // an element that may consume nothing
            return;
        }
        let zero = by_ctx && sizes.iter().any(|s| *s == Some(0));
        let d = Def {
            idx,
            tag: "enum",
            endian,
            order,
            magic,
            ctx,
            seek: None,
            named: false,
            greedy: false,
            seeky: false,
            fixed_bits: fixed,
            size_mod8: m8,
            unordered: all.unordered,
            need_align: all.need_align || order.is_some(),
            bytewise: m8 == Some(0),
            size_derive: size_ok && sizes.iter().all(|s| s.is_some()),
            has_update: all.has_update,
            canonical: all.canonical,
            tracked: all.tracked,
            uses_bits: all.uses_bits || bits.is_some() || order.is_some(),
            top: matches!(ctx, CtxK::None | CtxK::NDefault(_)),
            has_limit: all.has_limit,
            has_enum: true,
            has_pad: all.has_pad,
            has_lsb: false,
            has_gate: false,
            has_off: false,
            until_set: false,
            generic: None,
            body: Body::Enum {
                id_ty: if by_ctx {
                    None
                } else if byte_id {
                    Some(Ty::Arr(Box::new(U8), 2))
                } else if bool_id {
                    Some(Ty::Bool)
                } else if let Some(d) = def_id {
                    Some(Ty::Def(d))
                } else {
                    Some(Ty::Int { w, s })
                },
                id_endian,
                bits,
                bytes,
                variants,
            },
        };
        let _ = (zero, size_ok);
        self.defs.push(d);
    }
}

fn needs_align(t: &Ty, defs: &[Def]) -> bool {
    match t {
        Ty::Def(d) => defs[*d].need_align,
        Ty::Arr(t, _) | Ty::Vec(t) | Ty::Boxed(t) | Ty::Opt(t) | Ty::Arc(t) | Ty::Cow(t) => needs_align(t, defs),
        Ty::Tup(t) => t.iter().any(|t| needs_align(t, defs)),
        _ => false,
    }
}

fn n_variants(d: &Def) -> usize {
    match &d.body {
        Body::Enum { variants, .. } => variants.len(),
        _ => 0,
    }
}

fn until_ok(d: &Def) -> bool {
    match &d.body {
        Body::Struct(fs) => {
            d.named
                && fs[0].temp.is_none()
                && matches!(fs[0].ty, Ty::Int { s: false, .. })
                && matches!(fs[0].hint, Some(Hint::Range(..)))
                && fs[0].skip == Skip::No
                && fs[0].cond.is_none()
        }
        _ => false,
    }
}

fn hashable(t: &Ty) -> bool {
    match t {
        Ty::Int { .. } | Ty::Bool | Ty::Nz { .. } | Ty::Ip4 | Ty::Ip6 => true,
        Ty::Arr(t, _) => hashable(t),
        Ty::Tup(ts) => ts.iter().all(hashable),
        _ => false,
    }
}

pub fn zoo(seed: u64, n: usize, cfg: GenCfg) -> Zoo {
    let mut g = G { r: Sm(seed ^ 0x5eed), cfg, defs: vec![] };
    g.r.next();
    let tags: &[&'static str] = if cfg.bits {
        &["plain", "bits", "lsb", "enum", "list", "misc", "pad", "enum", "bits", "misc", "seek", "greedy", "mix", "enum", "list", "bits"]
    } else {
        &["plain", "enum", "list", "misc", "pad", "enum", "misc", "seek", "greedy", "mix", "enum", "list"]
    };
    let mut k = 0;
    while g.defs.len() < n {
        let tag = tags[k % tags.len()];
        k += 1;
        if tag == "enum" {
            g.g_enum();
        } else {
            g.g_struct(tag);
        }
    }
    for i in 0..g.defs.len() {
        let (mut lsb, mut gate) = {
            let d = &g.defs[i];
            let fs = d.all_fields();
            (
                d.order == Some(Or::Lsb) || fs.iter().any(|f| f.order == Some(Or::Lsb)),
                !d.magic.is_empty()
                    || fs.iter().any(|f| !f.magic.is_empty() || f.assert.is_some() || f.assert_eq.is_some() || matches!(f.special, Special::MapLt(_) | Special::MapXor(_))),
            )
        };
        let (mut off, mut us) = (false, false);
        if let Body::Enum { id_ty: Some(Ty::Def(c)), .. } = &g.defs[i].body {
            let c = &g.defs[*c];
            off |= c.has_off;
            lsb |= c.has_lsb;
            gate |= c.has_gate;
        }
        for f in g.defs[i].all_fields() {
            off |= f.has_off();
            us |= matches!(f.ty, Ty::Set(_) | Ty::Map(..)) && matches!(f.limit, Limit::Until(_) | Limit::UntilF0(_));
            refs(&f.ty, &mut |c| {
                off |= g.defs[c].has_off;
                us |= g.defs[c].until_set;
                lsb |= g.defs[c].has_lsb;
                gate |= g.defs[c].has_gate;
            });
        }
        g.defs[i].has_off = off;
        g.defs[i].until_set = us;
        g.defs[i].has_lsb = lsb;
        g.defs[i].has_gate = gate;
    }
    Zoo { seed, defs: g.defs }
}
