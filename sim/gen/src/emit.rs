//! Prints a zoo of schemas as Rust types with deku attributes (build time only).

use crate::schema::*;
use std::fmt::Write;

fn en(e: En) -> &'static str {
    match e {
        En::Le => "little",
        En::Be => "big",
    }
}
fn or(o: Or) -> &'static str {
    match o {
        Or::Msb => "msb",
        Or::Lsb => "lsb",
    }
}
fn bstr(b: &[u8]) -> String {
    let mut s = String::from("b\"");
    for x in b {
        write!(s, "\\x{x:02x}").unwrap();
    }
    s.push('"');
    s
}

pub fn ty(t: &Ty) -> String {
    match t {
        Ty::Int { w, s } => format!("{}{}", if *s { "i" } else { "u" }, w),
        Ty::F32 => "f32".into(),
        Ty::F64 => "f64".into(),
        Ty::Bool => "bool".into(),
        Ty::Nz { w, s } => format!("core::num::NonZero{}{}", if *s { "I" } else { "U" }, w),
        Ty::Ip4 => "core::net::Ipv4Addr".into(),
        Ty::Ip6 => "core::net::Ipv6Addr".into(),
        Ty::CStr => "alloc::ffi::CString".into(),
        Ty::Def(d) => format!("T{d}"),
        Ty::Arr(t, n) => format!("[{}; {n}]", ty(t)),
        Ty::Vec(t) => format!("Vec<{}>", ty(t)),
        Ty::Opt(t) => format!("Option<{}>", ty(t)),
        Ty::Boxed(t) => format!("Box<{}>", ty(t)),
        Ty::ArcSlice(t) => format!("alloc::sync::Arc<[{}]>", ty(t)),
        Ty::Usz { s } => if *s { "isize".into() } else { "usize".into() },
        Ty::CStrN => "alloc::ffi::CString".into(),
        Ty::BoxSlice(t) => format!("Box<[{}]>", ty(t)),
        Ty::Arc(t) => format!("alloc::sync::Arc<{}>", ty(t)),
        Ty::Cow(t) => format!("alloc::borrow::Cow<'static, {}>", ty(t)),
        Ty::Tup(ts) => {
            let v: Vec<String> = ts.iter().map(ty).collect();
            if v.is_empty() { "()".into() } else { format!("({},)", v.join(", ")) }
        }
        Ty::Map(a, b) => format!("std::collections::HashMap<{}, {}, h::Det>", ty(a), ty(b)),
        Ty::Set(a) => format!("std::collections::HashSet<{}, h::Det>", ty(a)),
        Ty::Tracked => "h::Tracked".into(),
    }
}

#[derive(Clone, Copy)]
struct P {
    named: bool,
    /// `self.` in front of field names (update expressions)
    slf: bool,
    /// which fields are temporary
    temps: u64,
}

fn fld(p: P, i: usize) -> String {
    match (p.named, p.slf) {
        (true, false) => format!("f{i}"),
        (true, true) => format!("self.f{i}"),
        (false, false) => format!("field_{i}"),
        (false, true) => format!("self.{}", i as u32 - (p.temps & ((1 << i) - 1)).count_ones()),
    }
}

/// i64 valued expression
fn ex(e: &Ex, p: P) -> String {
    match e {
        Ex::C(c) => format!("{c}i64"),
        Ex::F(i) if p.slf => format!("({} as i64)", fld(p, *i)),
        Ex::F(i) => format!("(*{} as i64)", fld(p, *i)),
        Ex::N => "(n as i64)".into(),
        Ex::And(a, k) => format!("({} & {k}i64)", ex(a, p)),
        Ex::Mul(a, k) => format!("({} * {k}i64)", ex(a, p)),
        Ex::Add(a, k) => format!("({} + {k}i64)", ex(a, p)),
        Ex::Eq(a, k) => format!("(({} == {k}i64) as i64)", ex(a, p)),
        Ex::Lt(a, k) => format!("(({} < {k}i64) as i64)", ex(a, p)),
        Ex::Len(i) => format!("({}.len() as i64)", fld(p, *i)),
        Ex::ByteOff => "(deku::byte_offset as i64)".into(),
        Ex::BitOff => "(deku::bit_offset as i64)".into(),
    }
}
fn boolex(e: &Ex, p: P) -> String {
    match e {
        Ex::Eq(a, k) => format!("{} == {k}i64", ex(a, p)),
        Ex::Lt(a, k) => format!("{} < {k}i64", ex(a, p)),
        _ => format!("{} != 0", ex(e, p)),
    }
}
/// expression usable as a count: plain field references are printed the way a
/// user writes them
fn cnt(e: &Ex, p: P) -> String {
    match e {
        Ex::F(i) => fld(p, *i),
        Ex::C(c) => format!("{c}"),
        _ => format!("({}) as usize", ex(e, p)),
    }
}

fn attrs(z: &Zoo, f: &Field, i: usize, p: P, d: &Def) -> Vec<String> {
    let mut a: Vec<String> = vec![];
    if f.id_store {
        return a;
    }
    if let Some(e) = f.endian {
        a.push(format!("endian = \"{}\"", en(e)));
    }
    if let Some(o) = f.order {
        a.push(format!("bit_order = \"{}\"", or(o)));
    }
    // a number may be given as a string as well
    let quoted = (d.idx + i) % 3 == 0;
    for (n, b) in [("bits", f.bits), ("bytes", f.bytes)] {
        if let Some(b) = b {
            a.push(if quoted { format!("{n} = \"{b}\"") } else { format!("{n} = {b}") });
        }
    }
    if let Some(b) = &f.bits_ex {
        a.push(format!("bits = \"({}) as usize\"", ex(b, p)));
    }
    if let Some(b) = &f.bytes_ex {
        a.push(format!("bytes = \"({}) as usize\"", ex(b, p)));
    }
    match &f.limit {
        Limit::None => {}
        Limit::Count(e) => a.push(format!("count = \"{}\"", cnt(e, p))),
        Limit::Until(k) => match &f.ty {
            Ty::Map(a1, b1) => a.push(format!("until = \"|v: &({}, {})| (v.0 as i64) == {k}\"", ty(a1), ty(b1))),
            Ty::Vec(t) | Ty::BoxSlice(t) | Ty::ArcSlice(t) | Ty::Set(t) => a.push(format!("until = \"|v: &{}| (*v as i64) == {k}\"", ty(t))),
            _ => panic!(),
        },
        Limit::UntilF0(k) => {
            let Ty::Vec(t) = &f.ty else { panic!() };
            a.push(format!("until = \"|v: &{}| (v.f0 as i64) == {k}\"", ty(t)));
        }
        Limit::Bits(e) => a.push(format!("bits_read = \"{}\"", cnt(e, p))),
        Limit::Bytes(e) => a.push(format!("bytes_read = \"{}\"", cnt(e, p))),
        Limit::All => a.push("read_all".into()),
    }
    if f.pad_bits_before > 0 {
        a.push(format!("pad_bits_before = \"{}\"", f.pad_bits_before));
    }
    if let Some(e) = &f.pad_bits_before_ex {
        a.push(format!("pad_bits_before = \"{}\"", cnt(e, p)));
    }
    if let Some(e) = &f.pad_bytes_before {
        a.push(format!("pad_bytes_before = \"{}\"", cnt(e, p)));
    }
    if f.pad_bits_after > 0 {
        a.push(format!("pad_bits_after = \"{}\"", f.pad_bits_after));
    }
    if let Some(e) = &f.pad_bits_after_ex {
        a.push(format!("pad_bits_after = \"{}\"", cnt(e, p)));
    }
    if let Some(e) = &f.pad_bytes_after {
        a.push(format!("pad_bytes_after = \"{}\"", cnt(e, p)));
    }
    if !f.magic.is_empty() {
        a.push(format!("magic = {}", bstr(&f.magic)));
    }
    match f.skip {
        Skip::No => {}
        Skip::All => a.push("skip".into()),
        Skip::Read => a.push("skip(read)".into()),
        Skip::Write => a.push("skip(write)".into()),
    }
    if let Some(c) = &f.cond {
        a.push(format!("cond = \"{}\"", boolex(c, p)));
    }
    if let Some(v) = f.default {
        a.push(format!("default = \"{v}\""));
    }
    if let Some(c) = &f.assert {
        a.push(format!("assert = \"{}\"", boolex(c, p)));
    }
    if let Some(v) = f.assert_eq {
        a.push(format!("assert_eq = \"{v}\""));
    }
    match &f.seek {
        None => {}
        Some(Seek::Cur(d)) => a.push(format!("seek_from_current = \"{d}\"")),
        Some(Seek::CurF(i)) => a.push(format!("seek_from_current = \"*{} as i64\"", fld(p, *i))),
        Some(Seek::End(d)) => a.push(format!("seek_from_end = \"{d}\"")),
        Some(Seek::Start(d)) => a.push(format!("seek_from_start = \"{d}\"")),
        Some(Seek::StartF(i)) => a.push(format!("seek_from_start = \"*{} as u64\"", fld(p, *i))),
        Some(Seek::Rewind) => a.push("seek_rewind".into()),
    }
    match &f.special {
        Special::No => {}
        Special::U24 => {
            a.push("reader = \"h::read_u24(deku::reader)\"".into());
            a.push(format!("writer = \"h::write_u24(deku::writer, {})\"", fld(p, i)));
        }
        Special::MapXor(k) => {
            a.push(format!("map = \"|v: u8| -> Result<u8, deku::DekuError> {{ Ok(v ^ {k}) }}\""));
            a.push(format!("writer = \"h::write_xor(deku::writer, {}, {k})\"", fld(p, i)));
        }
        Special::MapLt(k) => {
            a.push(format!("map = \"|v: u8| h::lt(v, {k})\""));
        }
    }
    if let Some(e) = &f.temp {
        a.push("temp".into());
        let Ty::Int { w, .. } = &f.ty else { panic!() };
        a.push(format!("temp_value = \"{} as u{w}\"", ex(e, p)));
    }
    if let Some(e) = &f.update {
        let q = P { slf: matches!(d.body, Body::Struct(_)), ..p };
        a.push(match e {
            Ex::Len(l) => format!("update = \"{}.len()\"", fld(q, *l)),
            Ex::C(c) => format!("update = \"{c}\""),
            e => format!("update = \"{}\"", ex(e, q)),
        });
    }
    if let Some(e) = &f.ctx {
        let mut v = format!("({}) as u8", ex(e, p));
        // with a struct endian the generated code hands it down by itself
        if matches!(&f.ty, Ty::Def(c) if two_ids(&z.defs[*c])) {
            v = format!("{v}, (({}) as u8) ^ 1", ex(e, p));
        }
        a.push(format!("ctx = \"{v}\""));
    }
    a
}

fn body_fields(z: &Zoo, fs: &[Field], d: &Def, named: bool, vis: &str) -> String {
    let mut s = String::new();
    let temps = fs.iter().enumerate().filter(|(_, f)| f.temp.is_some()).map(|(i, _)| 1u64 << i).sum();
    let p = P { named, slf: false, temps };
    for (i, f) in fs.iter().enumerate() {
        let a = attrs(z, f, i, p, d);
        if !a.is_empty() {
            write!(s, "    #[deku({})]\n", a.join(", ")).unwrap();
        }
        if named && d.generic == Some(i) {
            write!(s, "    {vis}f{i}: G,\n").unwrap();
        } else if named {
            write!(s, "    {vis}f{i}: {},\n", ty(&f.ty)).unwrap();
        } else {
            write!(s, "    {vis}{},\n", ty(&f.ty)).unwrap();
        }
    }
    s
}

fn top_attrs(d: &Def) -> Vec<String> {
    let mut a = vec![];
    match d.ctx {
        CtxK::None => {}
        CtxK::Endian => a.push("ctx = \"endian: deku::ctx::Endian\"".into()),
        CtxK::Order => a.push("ctx = \"order: deku::ctx::Order\"".into()),
        CtxK::EndianOrder => a.push("ctx = \"endian: deku::ctx::Endian, order: deku::ctx::Order\"".into()),
        CtxK::N if two_ids(d) => a.push("ctx = \"n: u8, m: u8\"".into()),
        CtxK::N => a.push("ctx = \"n: u8\"".into()),
        CtxK::EndianN => a.push("ctx = \"endian: deku::ctx::Endian, n: u8\"".into()),
        CtxK::NDefault(k) => {
            a.push("ctx = \"n: u8\"".into());
            a.push(format!("ctx_default = \"{k}\""));
        }
    }
    match d.ctx {
        CtxK::Endian | CtxK::EndianOrder | CtxK::EndianN => a.push("endian = \"endian\"".into()),
        _ => {
            if let Some(e) = d.endian {
                a.push(format!("endian = \"{}\"", en(e)));
            }
        }
    }
    match d.ctx {
        CtxK::Order | CtxK::EndianOrder => a.push("bit_order = \"order\"".into()),
        _ => {
            if let Some(o) = d.order {
                a.push(format!("bit_order = \"{}\"", or(o)));
            }
        }
    }
    if !d.magic.is_empty() {
        a.push(format!("magic = {}", bstr(&d.magic)));
    }
    match &d.seek {
        None => {}
        Some(Seek::Start(p)) => a.push(format!("seek_from_start = \"{p}\"")),
        Some(Seek::Cur(p)) => a.push(format!("seek_from_current = \"{p}\"")),
        Some(Seek::End(p)) => a.push(format!("seek_from_end = \"{p}\"")),
        Some(Seek::Rewind) => a.push("seek_rewind".into()),
        Some(s) => panic!("{s:?}"),
    }
    a
}

fn has_temp(d: &Def) -> bool {
    match &d.body {
        Body::Struct(fs) => fs.iter().any(|f| f.temp.is_some()),
        Body::Enum { variants, .. } => variants.iter().any(|v| v.fields.iter().any(|f| f.temp.is_some())),
    }
}

fn lit(t: &Ty, v: i128) -> String {
    match t {
        Ty::Int { s: true, .. } => format!("{v}"),
        _ => format!("{v}"),
    }
}

/// the id is made of two context parameters, the second being the first ^ 1
fn two_ids(d: &Def) -> bool {
    d.ctx == CtxK::N && d.idx % 3 != 0 && matches!(&d.body, Body::Enum { id_ty: None, variants, .. } if variants.iter().all(|v| matches!(v.id, VarId::Int(_) | VarId::Wild)))
}

pub fn has_size(z: &Zoo, d: &Def) -> bool {
    d.size_derive && !matches!(&d.body, Body::Enum { id_ty: Some(t @ Ty::Def(_)), .. } if !sizeable(z, t)) && all_fields(d).iter().all(|f| f.id_store || (f.skip == Skip::All && f.cond.is_none()) || ((f.bits.is_some() || f.bytes.is_some()) && leafish(&f.ty)) || sizeable(z, &f.ty))
}
fn all_fields(d: &Def) -> Vec<&Field> {
    match &d.body {
        Body::Struct(fs) => fs.iter().collect(),
        Body::Enum { variants, .. } => variants.iter().flat_map(|v| v.fields.iter()).collect(),
    }
}
fn leafish(t: &Ty) -> bool {
    match t {
        Ty::Int { .. } | Ty::Bool => true,
        Ty::Arr(t, _) => leafish(t),
        Ty::Tup(ts) => ts.iter().all(leafish),
        _ => false,
    }
}
fn sizeable(z: &Zoo, t: &Ty) -> bool {
    match t {
        Ty::Int { .. } | Ty::Usz { .. } | Ty::Bool | Ty::F32 | Ty::F64 => true,
        Ty::Arr(t, _) => sizeable(z, t),
        Ty::Tup(ts) => !ts.is_empty() && ts.iter().all(|t| sizeable(z, t)),
        Ty::Def(d) => has_size(z, &z.defs[*d]),
        _ => false,
    }
}

fn clone_needed(z: &Zoo) -> Vec<bool> {
    // element of a Cow must be Clone: everything derives Clone, hence transitive
    vec![true; z.defs.len()]
}

pub fn def(z: &Zoo, d: &Def) -> String {
    let mut s = String::new();
    let ta = {
        let mut ta = top_attrs(d);
        if let Body::Enum { id_ty, id_endian, bits, bytes, variants: _ } = &d.body {
            match id_ty {
                None if two_ids(d) => ta.push("id = \"n, m\"".into()),
                None => ta.push("id = \"n\"".into()),
                Some(t) => {
                    ta.push(format!("id_type = \"{}\"", ty(t)));
                }
            }
            if let Some(e) = id_endian {
                ta.push(format!("id_endian = \"{}\"", en(*e)));
            }
            if let Some(b) = bits {
                ta.push(format!("bits = {b}"));
            }
            if let Some(b) = bytes {
                ta.push(format!("bytes = {b}"));
            }
        }
        ta
    };
    let mut derives = vec!["deku::DekuRead", "deku::DekuWrite"];
    if has_size(z, d) {
        if has_temp(d) {
            // sees all fields only in front of the attribute
            s.push_str("#[derive(deku::DekuSize)]\n");
        } else {
            derives.push("deku::DekuSize");
        }
    }
    if has_temp(d) {
        write!(s, "#[deku::deku_derive({})]\n#[derive(Clone, Debug, PartialEq)]\n", derives.join(", ").replace("deku::", "")).unwrap();
    } else {
        write!(s, "#[derive({}, Clone, Debug, PartialEq)]\n", derives.join(", ")).unwrap();
    }
    if !ta.is_empty() {
        write!(s, "#[deku({})]\n", ta.join(", ")).unwrap();
    }
    let n = d.idx;
    match &d.body {
        Body::Struct(fs) => {
            if let Some(g) = d.generic {
                write!(s, "pub struct T{n}g<G>\nwhere\n    G: for<'a> deku::DekuReader<'a, ()> + deku::DekuWriter<()>,\n{{\n{}}}\npub type T{n} = T{n}g<{}>;\n", body_fields(z, fs, d, true, "pub "), ty(&fs[g].ty)).unwrap();
            } else if d.named {
                write!(s, "pub struct T{n} {{\n{}}}\n", body_fields(z, fs, d, true, "pub ")).unwrap();
            } else {
                write!(s, "pub struct T{n}(\n{});\n", body_fields(z, fs, d, false, "pub ")).unwrap();
            }
        }
        Body::Enum { id_ty, variants, .. } => {
            let disc = variants.iter().any(|v| matches!(v.id, VarId::Disc(_)));
            if disc {
                write!(s, "#[repr({})]\n", ty(id_ty.as_ref().unwrap())).unwrap();
            }
            write!(s, "pub enum T{n} {{\n").unwrap();
            for (i, v) in variants.iter().enumerate() {
                let mut a = vec![];
                let it = id_ty.clone().unwrap_or(Ty::Int { w: 8, s: false });
                match &v.id {
                    VarId::Int(x) if it == Ty::Bool => a.push(format!("id = {}", *x != 0)),
                    VarId::Int(x) if matches!(it, Ty::Def(_)) => a.push(format!("id = \"{}::V{x}\"", ty(&it))),
                    VarId::Int(x) if two_ids(d) => a.push(format!("id = \"({x}, {})\"", x ^ 1)),
                    VarId::Int(x) => a.push(if *x < 0 || (n + i) % 4 == 0 { format!("id = \"{}\"", lit(&it, *x)) } else { format!("id = {}", lit(&it, *x)) }),
                    VarId::Pat(lo, hi) => {
                        if *hi == i128::MAX {
                            a.push(format!("id_pat = \"{lo}..\""))
                        } else if *lo == 0 && matches!(it, Ty::Int { s: false, .. }) && hi % 3 == 0 {
                            a.push(format!("id_pat = \"..={hi}\""))
                        } else if lo < hi && (lo + hi) % 3 == 0 {
                            a.push(format!("id_pat = \"{lo}..{}\"", hi + 1))
                        } else if lo == hi {
                            a.push(format!("id_pat = \"{lo}\""))
                        } else {
                            a.push(format!("id_pat = \"{lo}..={hi}\""))
                        }
                    }
                    VarId::PatSet(v) => {
                        let p: Vec<String> = v.iter().map(|x| if let Ty::Def(k) = it { format!("T{k}::V{x}") } else { x.to_string() }).collect();
                        a.push(format!("id_pat = \"{}\"", p.join(" | ")));
                    }
                    VarId::Wild => a.push("id_pat = \"_\"".into()),
                    VarId::Bytes(b) => a.push(format!("id = {}", bstr(b))),
                    VarId::Disc(_) => {}
                }
                if v.default {
                    a.push("default".into());
                }
                if !a.is_empty() {
                    write!(s, "  #[deku({})]\n", a.join(", ")).unwrap();
                }
                if v.fields.is_empty() {
                    if let VarId::Disc(x) = v.id {
                        write!(s, "  V{i} = {x},\n").unwrap();
                    } else {
                        write!(s, "  V{i},\n").unwrap();
                    }
                } else if v.named {
                    write!(s, "  V{i} {{\n{}  }},\n", body_fields(z, &v.fields, d, true, "")).unwrap();
                } else {
                    write!(s, "  V{i}(\n{}  ),\n", body_fields(z, &v.fields, d, false, "")).unwrap();
                }
            }
            s.push_str("}\n");
        }
    }
    s.push_str(&conv(d));
    s
}

fn conv(d: &Def) -> String {
    let mut s = String::new();
    let n = d.idx;
    write!(s, "impl ToVal for T{n} {{ fn to_val(&self) -> Val {{ ").unwrap();
    let vis = |fs: &[Field]| -> Vec<usize> { (0..fs.len()).filter(|i| fs[*i].temp.is_none()).collect() };
    match &d.body {
        Body::Struct(fs) => {
            let v = vis(fs);
            let parts: Vec<String> = v
                .iter()
                .enumerate()
                .map(|(k, i)| if d.named { format!("self.f{i}.to_val()") } else { format!("self.{k}.to_val()") })
                .collect();
            write!(s, "Val::L(vec![{}])", parts.join(", ")).unwrap();
        }
        Body::Enum { variants, .. } => {
            s.push_str("match self { ");
            for (vi, v) in variants.iter().enumerate() {
                let f = vis(&v.fields);
                let names: Vec<String> = f.iter().map(|i| format!("f{i}")).collect();
                let vals: Vec<String> = f.iter().map(|i| format!("f{i}.to_val()")).collect();
                let pat = if v.fields.is_empty() {
                    String::new()
                } else if v.named {
                    format!("{{ {} }}", names.join(", "))
                } else {
                    format!("({})", names.join(", "))
                };
                write!(s, "T{n}::V{vi}{pat} => Val::E({vi}, vec![{}]), ", vals.join(", ")).unwrap();
            }
            s.push('}');
        }
    }
    s.push_str(" } }\n");
    write!(s, "impl FromVal for T{n} {{ fn from_val(v: &Val) -> Self {{ ").unwrap();
    match &d.body {
        Body::Struct(fs) => {
            let v = vis(fs);
            s.push_str("let Val::L(x) = v else { panic!() }; ");
            if d.named {
                let p: Vec<String> = v.iter().enumerate().map(|(k, i)| format!("f{i}: FromVal::from_val(&x[{k}])")).collect();
                write!(s, "T{n} {{ {} }}", p.join(", ")).unwrap();
            } else {
                let p: Vec<String> = v.iter().enumerate().map(|(k, _)| format!("FromVal::from_val(&x[{k}])")).collect();
                write!(s, "T{n}({})", p.join(", ")).unwrap();
            }
        }
        Body::Enum { variants, .. } => {
            s.push_str("let Val::E(i, x) = v else { panic!() }; let _ = x; match i { ");
            for (vi, v) in variants.iter().enumerate() {
                let f = vis(&v.fields);
                let body = if v.fields.is_empty() {
                    String::new()
                } else if v.named {
                    let p: Vec<String> = f.iter().enumerate().map(|(k, i)| format!("f{i}: FromVal::from_val(&x[{k}])")).collect();
                    format!("{{ {} }}", p.join(", "))
                } else {
                    let p: Vec<String> = f.iter().enumerate().map(|(k, _)| format!("FromVal::from_val(&x[{k}])")).collect();
                    format!("({})", p.join(", "))
                };
                write!(s, "{vi} => T{n}::V{vi}{body}, ").unwrap();
            }
            s.push_str("_ => panic!() }");
        }
    }
    s.push_str(" } }\n");
    s
}

pub fn reg(z: &Zoo, d: &Def) -> String {
    let n = d.idx;
    let ctx = match d.ctx {
        CtxK::None => "()",
        CtxK::Endian => "c.endian",
        CtxK::Order => "c.order",
        CtxK::EndianOrder => "(c.endian, c.order)",
        CtxK::N if two_ids(d) => "(c.n, c.n ^ 1)",
        CtxK::N | CtxK::NDefault(_) => "c.n",
        CtxK::EndianN => "(c.endian, c.n)",
    };
    let top = if d.top { "Some(Top::of::<T@>())" } else { "None" };
    let upd = if d.has_update { "Some(|v| { let mut t = T@::from_val(v); deku::DekuUpdate::update(&mut t)?; Ok(t.to_val()) })" } else { "None" };
    let id = match &d.body {
        Body::Enum { id_ty: Some(_), .. } => "Some(|v| Ok(deku::DekuEnumExt::deku_id(&T@::from_val(v))?.to_val()))",
        _ => "None",
    };
    let size = if has_size(z, d) { "Some((<T@ as deku::DekuSize>::SIZE_BITS, <T@ as deku::DekuSize>::SIZE_BYTES))" } else { "None" };
    format!(
        "Ops {{ idx: @, read: |r, c| {{ let _ = c; let t = T@::from_reader_with_ctx(r, {ctx})?; Ok(t.to_val()) }}, write: |w, v, c| {{ let _ = c; let t = T@::from_val(v); t.to_writer(w, {ctx}) }}, top: {top}, id: {id}, update: {upd}, size: {size} }},\n"
    )
    .replace('@', &n.to_string())
}

pub fn file(z: &Zoo, label: &str) -> String {
    let _ = clone_needed(z);
    let mut s = String::new();
    s.push_str("use super::*;\n");
    for d in &z.defs {
        s.push_str(&def(z, d));
    }
    write!(s, "pub const LABEL: &str = {label:?};\npub fn ops() -> Vec<Ops> {{ vec![\n").unwrap();
    for d in &z.defs {
        s.push_str(&reg(z, d));
    }
    s.push_str("] }\n");
    s
}
