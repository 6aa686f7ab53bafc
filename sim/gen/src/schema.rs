//! The schema language shared by the program generator (build time) and the
//! executable reference model (run time).  A `Def` describes one message type:
//! the generator prints it as a Rust type with deku attributes, the model
//! interprets it directly on bits.  Nothing here refers to deku.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum En {
    Le,
    Be,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Or {
    Msb,
    Lsb,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    Int { w: u32, s: bool },
    F32,
    F64,
    Bool,
    Nz { w: u32, s: bool },
    Ip4,
    Ip6,
    CStr,
    Def(usize),
    Arr(Box<Ty>, usize),
    Vec(Box<Ty>),
    Opt(Box<Ty>),
    Boxed(Box<Ty>),
    BoxSlice(Box<Ty>),
    ArcSlice(Box<Ty>),
    /// usize / isize
    Usz { s: bool },
    /// CString of a given size (`bytes`)
    CStrN,
    Arc(Box<Ty>),
    Cow(Box<Ty>),
    Tup(Vec<Ty>),
    Map(Box<Ty>, Box<Ty>),
    Set(Box<Ty>),
    /// Drop-counted byte (hand-written element)
    Tracked,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Ex {
    C(i64),
    F(usize),
    /// the custom context parameter `n`
    N,
    And(Box<Ex>, i64),
    Mul(Box<Ex>, i64),
    Add(Box<Ex>, i64),
    Eq(Box<Ex>, i64),
    Lt(Box<Ex>, i64),
    /// length (elements) of a container field
    Len(usize),
    /// `deku::byte_offset` / `deku::bit_offset`
    ByteOff,
    BitOff,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Limit {
    None,
    Count(Ex),
    Until(i64),
    /// until, predicate on the first field of a struct element
    UntilF0(i64),
    Bits(Ex),
    Bytes(Ex),
    All,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Seek {
    Cur(i64),
    CurF(usize),
    End(i64),
    Start(u64),
    StartF(usize),
    Rewind,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Hint {
    Range(i64, i64),
    OneOf(Vec<i64>),
    Mult(i64, i64),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Skip {
    No,
    All,
    Read,
    Write,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Special {
    No,
    /// custom reader/writer functions: three bytes, big endian, in a u32
    U24,
    /// map = v ^ k on read, custom writer on write
    MapXor(u8),
    /// map that fails for values >= k
    MapLt(u8),
}

#[derive(Clone, PartialEq, Debug)]
pub struct Field {
    pub ty: Ty,
    pub endian: Option<En>,
    pub order: Option<Or>,
    pub bits: Option<u32>,
    pub bytes: Option<u32>,
    /// size computed from earlier fields
    pub bits_ex: Option<Ex>,
    pub bytes_ex: Option<Ex>,
    pub limit: Limit,
    pub pad_bits_before: u32,
    /// in addition to `pad_bits_before`, which is 0 then
    pub pad_bits_before_ex: Option<Ex>,
    pub pad_bytes_before: Option<Ex>,
    pub pad_bits_after: u32,
    pub pad_bits_after_ex: Option<Ex>,
    pub pad_bytes_after: Option<Ex>,
    pub magic: Vec<u8>,
    pub cond: Option<Ex>,
    pub default: Option<i64>,
    pub skip: Skip,
    pub assert: Option<Ex>,
    pub assert_eq: Option<i64>,
    pub seek: Option<Seek>,
    pub special: Special,
    /// not stored; on write the value of this expression
    pub temp: Option<Ex>,
    /// `update` attribute
    pub update: Option<Ex>,
    /// value of the custom ctx parameter handed down
    pub ctx: Option<Ex>,
    pub hint: Option<Hint>,
    /// first field of an id_pat variant: stores the id
    pub id_store: bool,
}
impl Field {
    pub fn new(ty: Ty) -> Field {
        Field {
            ty,
            endian: None,
            order: None,
            bits: None,
            bytes: None,
            bits_ex: None,
            bytes_ex: None,
            limit: Limit::None,
            pad_bits_before: 0,
            pad_bits_before_ex: None,
            pad_bytes_before: None,
            pad_bits_after: 0,
            pad_bits_after_ex: None,
            pad_bytes_after: None,
            magic: vec![],
            cond: None,
            default: None,
            skip: Skip::No,
            assert: None,
            assert_eq: None,
            seek: None,
            special: Special::No,
            temp: None,
            update: None,
            ctx: None,
            hint: None,
            id_store: false,
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum VarId {
    Int(i128),
    Pat(i128, i128),
    /// several alternatives
    PatSet(Vec<i128>),
    Wild,
    /// byte-string id, `id = b"xx"`
    Bytes(Vec<u8>),
    /// unit variant with explicit discriminant
    Disc(i128),
}

#[derive(Clone, PartialEq, Debug)]
pub struct Variant {
    pub id: VarId,
    pub default: bool,
    pub fields: Vec<Field>,
    pub named: bool,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Body {
    Struct(Vec<Field>),
    Enum {
        /// id type; None = id comes from the custom ctx parameter `n`
        id_ty: Option<Ty>,
        id_endian: Option<En>,
        bits: Option<u32>,
        bytes: Option<u32>,
        variants: Vec<Variant>,
    },
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum CtxK {
    None,
    Endian,
    Order,
    EndianOrder,
    /// custom `n: u8`
    N,
    /// custom with endian: `endian: Endian, n: u8`
    EndianN,
    /// custom `n: u8` with `ctx_default = "k"`; used both with and without ctx
    NDefault(u8),
}

#[derive(Clone, PartialEq, Debug)]
pub struct Def {
    pub idx: usize,
    pub tag: &'static str,
    pub endian: Option<En>,
    pub order: Option<Or>,
    pub magic: Vec<u8>,
    pub ctx: CtxK,
    pub seek: Option<Seek>,
    pub named: bool,
    pub body: Body,
    // ---- derived facts, filled by the generator
    pub greedy: bool,
    pub seeky: bool,
    /// exact size, when every message has the same
    pub fixed_bits: Option<usize>,
    pub size_mod8: Option<u32>,
    /// has maps/sets: the encoding is not a function of the value
    pub unordered: bool,
    /// must start on a byte boundary
    pub need_align: bool,
    /// whole message is a multiple of 8 bits at alignment 0
    pub bytewise: bool,
    /// derive DekuSize
    pub size_derive: bool,
    pub has_update: bool,
    /// encoding of a decoded value reproduces the consumed bytes
    pub canonical: bool,
    pub tracked: bool,
    /// uses bit-level attributes (only with the `bits` feature)
    pub uses_bits: bool,
    /// may be used stand-alone
    pub top: bool,
    /// size of the message depends on its content
    pub has_limit: bool,
    pub has_enum: bool,
    pub has_pad: bool,
    /// least significant bit first somewhere inside
    pub has_lsb: bool,
    /// magic, assertion or failing map somewhere inside
    pub has_gate: bool,
    /// depends on the position in the stream
    pub has_off: bool,
    /// this field has the type of a type parameter
    pub generic: Option<usize>,
    /// a set or map that ends with a certain element: order matters although it is free
    pub until_set: bool,
}

impl Ex {
    /// the container whose length this is computed from
    pub fn len_of(&self) -> Option<usize> {
        match self {
            Ex::Len(i) => Some(*i),
            Ex::And(e, _) | Ex::Mul(e, _) | Ex::Add(e, _) | Ex::Eq(e, _) | Ex::Lt(e, _) => e.len_of(),
            _ => None,
        }
    }
    pub fn has_off(&self) -> bool {
        match self {
            Ex::ByteOff | Ex::BitOff => true,
            Ex::And(e, _) | Ex::Mul(e, _) | Ex::Add(e, _) | Ex::Eq(e, _) | Ex::Lt(e, _) => e.has_off(),
            _ => false,
        }
    }
}
impl Field {
    /// some of the padding is given in bits
    pub fn bit_pads(&self) -> bool {
        self.pad_bits_before > 0 || self.pad_bits_after > 0 || self.pad_bits_before_ex.is_some() || self.pad_bits_after_ex.is_some()
    }
    pub fn has_off(&self) -> bool {
        let l = match &self.limit {
            Limit::Count(e) | Limit::Bits(e) | Limit::Bytes(e) => e.has_off(),
            _ => false,
        };
        l || [&self.bits_ex, &self.bytes_ex, &self.pad_bytes_before, &self.pad_bytes_after, &self.pad_bits_before_ex, &self.pad_bits_after_ex, &self.cond, &self.assert, &self.temp, &self.update, &self.ctx]
            .iter()
            .any(|e| e.as_ref().is_some_and(|e| e.has_off()))
    }
}

/// the definitions a type refers to
pub fn refs(t: &Ty, f: &mut dyn FnMut(usize)) {
    match t {
        Ty::Def(d) => f(*d),
        Ty::Arr(t, _) | Ty::Vec(t) | Ty::Opt(t) | Ty::Boxed(t) | Ty::BoxSlice(t) | Ty::ArcSlice(t) | Ty::Arc(t) | Ty::Cow(t) | Ty::Set(t) => refs(t, f),
        Ty::Map(a, b) => {
            refs(a, f);
            refs(b, f);
        }
        Ty::Tup(ts) => ts.iter().for_each(|t| refs(t, f)),
        _ => {}
    }
}
impl Def {
    pub fn all_fields(&self) -> Vec<&Field> {
        match &self.body {
            Body::Struct(fs) => fs.iter().collect(),
            Body::Enum { variants, .. } => variants.iter().flat_map(|v| v.fields.iter()).collect(),
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct Zoo {
    /// what it was generated from
    pub seed: u64,
    pub defs: Vec<Def>,
}

impl Zoo {
    pub fn name(i: usize) -> String {
        format!("T{i}")
    }
}

/// splitmix64
#[derive(Clone)]
pub struct Sm(pub u64);
impl Sm {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
}
