//! Scenarios around writing: sinks, sink failures, recovery, sizes, updates.

use crate::fail;
use crate::p_read::{any, case, diff_class, mix};
use crate::sim::*;
use dcore::io::*;
use dcore::model::*;
use dcore::support::*;
use dgen::schema::*;

// ---------------------------------------------------------------- mutation

fn full(s: &Sim, w: u32) -> u128 {
    let m = if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
    match s.draw(5, "mut.kind") {
        0 => s.draw(16, "mut.small") as u128 & m,
        1 => m,
        2 => 1u128 << (w - 1),
        _ => {
            let a = s.draw(u64::MAX, "mut.lo") as u128;
            let b = if w > 64 { s.draw(u64::MAX, "mut.hi") as u128 } else { 0 };
            (a | b << 64) & m
        }
    }
}
fn int(s: &Sim, w: u32, sg: bool) -> Val {
    let u = full(s, w);
    if sg {
        Val::I(sext(u, w))
    } else {
        Val::U(u)
    }
}

/// Replaces one random part of a value by another value of the same Rust type.
pub fn tweak(s: &Sim, z: &Zoo, di: usize, v: &Val) -> Val {
    let mut v = v.clone();
    tweak_def(s, z, di, &mut v);
    v
}
fn tweak_def(s: &Sim, z: &Zoo, di: usize, v: &mut Val) {
    let (fs, xs): (&[Field], &mut Vec<Val>) = match (&z.defs[di].body, v) {
        (Body::Struct(fs), Val::L(x)) => (fs, x),
        (Body::Enum { variants, .. }, Val::E(i, x)) => (&variants[*i].fields, x),
        _ => return,
    };
    let vis: Vec<&Field> = fs.iter().filter(|f| f.temp.is_none()).collect();
    if vis.is_empty() {
        return;
    }
    let k = s.draw(vis.len() as u64, "mut.field") as usize;
    tweak_ty(s, z, &vis[k].ty, &mut xs[k]);
}
pub fn tweak_ty(s: &Sim, z: &Zoo, t: &Ty, v: &mut Val) {
    match (t, &mut *v) {
        (Ty::Int { w, s: sg }, _) => *v = int(s, *w, *sg),
        (Ty::Usz { s: sg }, _) => *v = int(s, 64, *sg),
        (Ty::F32, _) => *v = Val::F(full(s, 32) as u64),
        (Ty::F64, _) => *v = Val::F(full(s, 64) as u64),
        (Ty::Bool, Val::B(b)) => *v = Val::B(!*b),
        (Ty::Nz { w, s: sg }, _) => {
            let x = int(s, *w, *sg);
            if as_i(&x) != 0 {
                *v = x
            }
        }
        (Ty::Ip4, _) => *v = int(s, 32, false),
        (Ty::Ip6, _) => *v = int(s, 128, false),
        (Ty::Tracked, _) => *v = int(s, 8, false),
        (Ty::CStr | Ty::CStrN, Val::Y(b)) => match s.draw(3, "mut.str") {
            0 => b.push(1 + s.draw(255, "mut.ch") as u8),
            1 => {
                b.pop();
            }
            _ => {
                if !b.is_empty() {
                    let i = s.draw(b.len() as u64, "mut.at") as usize;
                    b[i] = 1 + s.draw(255, "mut.ch") as u8;
                }
            }
        },
        (Ty::Def(d), _) => tweak_def(s, z, *d, v),
        (Ty::Arr(t, _), Val::L(x)) => {
            if !x.is_empty() {
                let i = s.draw(x.len() as u64, "mut.at") as usize;
                tweak_ty(s, z, t, &mut x[i]);
            }
        }
        (Ty::Tup(ts), Val::L(x)) => {
            if x.is_empty() {
                return;
            }
            let i = s.draw(x.len() as u64, "mut.at") as usize;
            tweak_ty(s, z, &ts[i], &mut x[i]);
        }
        (Ty::Vec(t) | Ty::BoxSlice(t) | Ty::ArcSlice(t), Val::L(x)) => {
            if x.is_empty() {
                return;
            }
            let i = s.draw(x.len() as u64, "mut.at") as usize;
            match s.draw(4, "mut.list") {
                0 | 1 => tweak_ty(s, z, t, &mut x[i]),
                2 => {
                    let mut e = x[i].clone();
                    tweak_ty(s, z, t, &mut e);
                    x.insert(i, e);
                }
                _ => {
                    x.remove(i);
                }
            }
        }
        (Ty::Set(t), Val::Set(x)) => {
            if x.is_empty() {
                return;
            }
            let i = s.draw(x.len() as u64, "mut.at") as usize;
            if s.draw(2, "mut.set") == 0 {
                x.remove(i);
            } else {
                let mut e = x[i].clone();
                tweak_ty(s, z, t, &mut e);
                x.push(e);
                x.sort();
                x.dedup();
            }
        }
        (Ty::Map(k, w), Val::M(x)) => {
            if x.is_empty() {
                return;
            }
            let i = s.draw(x.len() as u64, "mut.at") as usize;
            match s.draw(3, "mut.map") {
                0 => {
                    x.remove(i);
                }
                1 => tweak_ty(s, z, w, &mut x[i].1),
                _ => {
                    let mut e = x[i].clone();
                    tweak_ty(s, z, k, &mut e.0);
                    if !x.iter().any(|y| y.0 == e.0) {
                        x.push(e);
                        x.sort();
                    }
                }
            }
        }
        (Ty::Opt(t), Val::S(x)) => {
            if s.draw(3, "mut.opt") == 0 {
                *v = Val::N
            } else {
                tweak_ty(s, z, t, x)
            }
        }
        (Ty::Opt(t), Val::N) => {
            if let Ty::Int { w, s: sg } = &**t {
                *v = Val::S(Box::new(int(s, *w, *sg)))
            }
        }
        (Ty::Boxed(t) | Ty::Arc(t) | Ty::Cow(t), _) => tweak_ty(s, z, t, v),
        _ => {}
    }
}

// ---------------------------------------------------------------- comparing output

pub fn unordered(s: &Sim, p: &Plan) -> bool {
    let z = p.zoo(s);
    p.msgs.iter().any(|m| z.defs[m.di].unordered)
}
pub fn seeky(s: &Sim, p: &Plan) -> bool {
    let z = p.zoo(s);
    p.msgs.iter().any(|m| z.defs[m.di].seeky)
}

/// Is `got` a correct encoding, given that maps and sets may be in any order?
fn same_bytes(got: &[u8], want: &[u8], loose: bool) -> bool {
    if !loose {
        return got == want;
    }
    // the same elements in another order
    let ones = |b: &[u8]| b.iter().map(|x| x.count_ones()).sum::<u32>();
    got.len() == want.len() && ones(got) == ones(want)
}

fn wclass(got: &Result<(), ErrC>, want: &Result<(), ErrC>) -> &'static str {
    match (got, want) {
        (Ok(_), Err(_)) => "wrote an invalid value",
        (Err(_), Ok(_)) => "refused a valid value",
        (Err(_), Err(_)) => "wrong kind of error",
        _ => "wrong bytes",
    }
}

/// What the format says about writing `vals` as a container (default context).
pub struct WantBits {
    pub res: Result<(), ErrC>,
    pub bytes: Vec<u8>,
    pub bits: Vec<bool>,
}
pub fn model_top(z: &Zoo, di: usize, v: &Val) -> WantBits {
    let mut e = Enc::new(z);
    let res = e.def(di, v, &root_leaf(), None);
    let mut bits: Vec<bool> = e.out.iter().flat_map(|b| (0..8).map(move |i| b >> (7 - i) & 1 == 1)).collect();
    bits.extend(e.rest());
    e.finalize();
    WantBits { res, bytes: e.out, bits }
}

/// Writes through the real library, one of the ways it offers, and compares
/// with the format.
pub fn write_matches(s: &mut Sim, p: &Plan, vals: &[Val]) -> Result<(), Bad> {
    let z = p.zoo(s);
    let loose = unordered(s, p);
    let sk = seeky(s, p);
    let d0 = &z.defs[p.msgs[0].di];
    let single_top = p.msgs.len() == 1 && d0.top;
    let mode = s.draw(if single_top { 7 } else { 2 }, "wentry");
    let mode = match mode {
        2 | 3 if !HAS_ALLOC => 4,
        5 | 6 if !HAS_BITVEC => 4,
        m => m,
    };
    let t = |s: &Sim| format!("value {:?}\n{}\n{}", vals, p.text(s), p.src(s));
    if mode < 2 {
        let (want, out, _) = model_write(z, &p.msgs, vals);
        if want.res == Err(ErrC::Limit) {
            return Ok(());
        }
        let mut st = stream(&s.w, "out", &[]);
        st.policy = Policy::draw(&s.w);
        let put = if mode == 1 && !sk {
            s.probe("entry_noseek_sink");
            st.seekable = false;
            safely("write", || real_write(&s.zoos[p.zi].1, &p.msgs, vals, &mut Ns(deku::noseek::NoSeek::new(&mut st))))
        } else {
            s.probe("entry_sink");
            safely("write", || real_write(&s.zoos[p.zi].1, &p.msgs, vals, &mut st))
        };
        let put = put.map_err(|b| Bad { detail: format!("{}\n{}", b.detail, t(s)), ..b })?;
        if put.res != want.res || put.at != want.at {
            fail!(wclass(&put.res, &want.res), "write: {:?} at message {}, expected {:?} at {}\n{}", put.res, put.at, want.res, want.at, t(s));
        }
        if put.res.is_ok() {
            if !same_bytes(&st.data, &out, loose) {
                fail!("wrong bytes", "wrote {}, expected {}\n{}", hex(&st.data), hex(&out), t(s));
            }
            if !sk && put.bits != want.bits {
                fail!("wrong position", "bits_written is {}, {} were written\n{}", put.bits, want.bits, t(s));
            }
            s.probe("written");
        } else {
            s.probe("refused");
        }
        return Ok(());
    }
    let want = model_top(z, p.msgs[0].di, &vals[0]);
    if want.res == Err(ErrC::Limit) {
        return Ok(());
    }
    let top = p.ops(s, 0).top.as_ref().unwrap();
    let v = &vals[0];
    match mode {
        2 | 3 => {
            let r = if mode == 2 {
                s.probe("entry_to_bytes");
                safely("to_bytes", || (top.to_bytes)(v))
            } else {
                s.probe("entry_try_into_vec");
                safely("try_into Vec<u8>", || (top.try_into_vec)(v))
            };
            let r = r.map_err(|b| Bad { detail: format!("{}\n{}", b.detail, t(s)), ..b })?;
            let rr = r.as_ref().map(|_| ()).map_err(errc);
            if rr != want.res {
                fail!(wclass(&rr, &want.res), "to_bytes: {r:?}, expected {:?}\n{}", want.res, t(s));
            }
            if let Ok(b) = &r {
                if !same_bytes(b, &want.bytes, loose) {
                    fail!("wrong bytes", "to_bytes gives {}, expected {}\n{}", hex(b), hex(&want.bytes), t(s));
                }
            }
        }
        4 => {
            s.probe("entry_to_slice");
            let extra = s.draw(4, "slice.extra") as usize;
            let mut buf: Vec<u8> = vec![0xA5; want.bytes.len() + extra];
            let r = safely("to_slice", || (top.to_slice)(v, &mut buf)).map_err(|b| Bad { detail: format!("{}\n{}", b.detail, t(s)), ..b })?;
            let rr = r.as_ref().map(|_| ()).map_err(errc);
            if sk {
                // the end of a slice is not the end of what was written
                return Ok(());
            }
            if rr != want.res {
                fail!(wclass(&rr, &want.res), "to_slice: {r:?}, expected {:?}\n{}", want.res, t(s));
            }
            if let Ok(n) = r {
                if n != want.bytes.len() {
                    fail!("wrong position", "to_slice reports {n} bytes, the message has {}\n{}", want.bytes.len(), t(s));
                }
                if !same_bytes(&buf[..n], &want.bytes, loose) {
                    fail!("wrong bytes", "to_slice gives {}, expected {}\n{}", hex(&buf[..n]), hex(&want.bytes), t(s));
                }
                if buf[n..].iter().any(|b| *b != 0xA5) {
                    fail!("wrote past the message", "to_slice changed bytes behind the {n} it reports\n{}", t(s));
                }
            }
        }
        _ => {
            let r = if mode == 5 {
                s.probe("entry_to_bits");
                safely("to_bits", || (top.to_bits)(v))
            } else {
                s.probe("entry_try_into_bits");
                safely("try_into BitVec", || (top.try_into_bits)(v))
            };
            let r = r.map_err(|b| Bad { detail: format!("{}\n{}", b.detail, t(s)), ..b })?;
            let rr = r.as_ref().map(|_| ()).map_err(errc);
            if rr != want.res {
                fail!(wclass(&rr, &want.res), "to_bits: {r:?}, expected {:?}\n{}", want.res, t(s));
            }
            if let Ok(b) = &r {
                if sk {
                    return Ok(());
                }
                let ok = if loose { b.len() == want.bits.len() } else { *b == want.bits };
                if !ok {
                    let f = |b: &[bool]| b.iter().map(|x| if *x { '1' } else { '0' }).collect::<String>();
                    fail!("wrong bytes", "to_bits gives {} ({} bits), expected {} ({})\n{}", f(b), b.len(), f(&want.bits), want.bits.len(), t(s));
                }
            }
        }
    }
    Ok(())
}

/// values worth writing: decoded ones, some with parts replaced
pub fn wvals(s: &mut Sim, filter: &dyn Fn(&Def) -> bool, msgs: u64, tweaks: u64) -> Option<(Plan, Vec<Val>)> {
    let c = case(s, filter, msgs, 0)?;
    if c.m.got.vals.iter().any(|v| v.is_err()) {
        return None;
    }
    let mut vals: Vec<Val> = c.m.got.vals.iter().map(|v| v.clone().unwrap()).collect();
    let z = c.p.zoo(s);
    for _ in 0..s.draw(tweaks + 1, "tweaks") {
        let k = s.draw(vals.len() as u64, "which") as usize;
        vals[k] = tweak(s, z, c.p.msgs[k].di, &vals[k]);
    }
    for v in &vals {
        mix(s, format!("{v:?}").as_bytes());
    }
    s.note(|| format!("values {vals:?}"));
    if model_write(z, &c.p.msgs, &vals).0.res == Err(ErrC::Limit) {
        return None;
    }
    Some((c.p, vals))
}

/// sink independence
pub fn c_sink(s: &mut Sim) -> Res {
    let Some((p, vals)) = wvals(s, &any, 3, 2) else { return Ok(false) };
    write_matches(s, &p, &vals)?;
    write_matches(s, &p, &vals)?;
    Ok(true)
}

/// sink failures
pub fn c_sink_faults(s: &mut Sim) -> Res {
    let f = |d: &Def| !d.seeky;
    let Some((p, vals)) = wvals(s, &f, 3, 1) else { return Ok(false) };
    let z = p.zoo(s);
    let loose = unordered(s, &p);
    let (want, out, _) = model_write(z, &p.msgs, &vals);
    // reference bytes: the format's, or where the order of elements is free, an undisturbed write
    let reference = if loose {
        let mut st = stream(&s.w, "reference", &[]);
        let _ = safely("write", || real_write(&s.zoos[p.zi].1, &p.msgs, &vals, &mut st))?;
        st.data
    } else {
        out.clone()
    };
    let t = |s: &Sim| format!("value {:?}\n{}\n{}", vals, p.text(s), p.src(s));
    let n = out.len() as u64;
    let off = if s.chance(1, 10, "beyond") { n + s.draw(3, "beyond.by") } else { s.draw(n, "fault.at") };
    let d0 = &z.defs[p.msgs[0].di];
    if p.msgs.len() == 1 && d0.top && s.chance(1, 4, "slice") {
        // a slice that is too small
        let w = model_top(z, p.msgs[0].di, &vals[0]);
        if w.res == Err(ErrC::Limit) {
            return Ok(false);
        }
        let off = off.min(w.bytes.len() as u64) as usize;
        let mut buf = vec![0xA5u8; off];
        let top = p.ops(s, 0).top.as_ref().unwrap();
        let r = safely("to_slice", || (top.to_slice)(&vals[0], &mut buf))?;
        let fits = w.bytes.len() <= off;
        match (&r, fits, &w.res) {
            (Ok(_), false, Ok(_)) => fail!("success although bytes were lost", "to_slice into {off} bytes reports {r:?}, the message has {}\n{}", w.bytes.len(), t(s)),
            (Err(deku::DekuError::Io(k)), false, _) if format!("{k:?}") == "WriteZero" => {}
            (Ok(m), true, Ok(_)) if *m == w.bytes.len() => {}
            (Err(e), true, Err(x)) if errc(e) == *x => {}
            (Err(e), false, Err(x)) if errc(e) == *x => {}
            _ => fail!("wrong kind of error", "to_slice into {off} bytes: {r:?}, the message has {} bytes ({:?})\n{}", w.bytes.len(), w.res, t(s)),
        }
        if r.is_err() && !fits && !loose && buf[..] != w.bytes[..off] {
            // everything that fits may be written, nothing else
            let k = buf.iter().zip(&w.bytes).take_while(|(a, b)| a == b).count();
            if buf[k..].iter().any(|b| *b != 0xA5) {
                fail!("sink corrupted", "a slice of {off} bytes holds {}, the message is {}\n{}", hex(&buf), hex(&w.bytes), t(s));
            }
        }
        s.fault(Fault::disk_full);
        s.probe("slice");
        return Ok(!fits);
    }
    let mut st = stream(&s.w, "out", &[]);
    st.policy = Policy::draw(&s.w);
    let k = s.kind();
    let mode = s.draw(3, "fault.kind");
    let name = match mode {
        0 => {
            st.cap = Some(off);
            st.full_kind = k;
            format!("{k:?}")
        }
        1 => {
            st.cap = Some(off);
            st.full_zero = true;
            "WriteZero".into()
        }
        _ => {
            st.err = Some(At { off, kind: k, times: s.times() });
            format!("{k:?}")
        }
    };
    let ns = s.chance(1, 4, "noseek");
    let put = if ns {
        st.seekable = false;
        safely("write", || real_write(&s.zoos[p.zi].1, &p.msgs, &vals, &mut Ns(deku::noseek::NoSeek::new(&mut st))))?
    } else {
        safely("write", || real_write(&s.zoos[p.zi].1, &p.msgs, &vals, &mut st))?
    };
    let fires = n > off;
    if fires != (st.errors > 0) {
        fail!("wrong bytes", "the sink fails at byte {off} of {n}, fired: {}\n{}", st.errors > 0, t(s));
    }
    if fires {
        match &put.res {
            Err(ErrC::Io(x)) if *x == name => {}
            Ok(()) => fail!("success although bytes were lost", "the sink failed with {name} at byte {off} of {n}, the write reports success\n{}", t(s)),
            other => fail!("wrong kind of error", "the sink failed with {name} at byte {off}: {other:?}\n{}", t(s)),
        }
        s.probe("fault_fired");
    } else if put.res != want.res {
        fail!(wclass(&put.res, &want.res), "{:?}, expected {:?}\n{}", put.res, want.res, t(s));
    }
    let keep = (off.min(n)) as usize;
    if st.data != reference[..keep.min(reference.len())] {
        fail!("sink corrupted", "the sink accepted {}, the message is {} (room for {keep} bytes)\n{}", hex(&st.data), hex(&reference), t(s));
    }
    Ok(fires)
}

/// retry after a transient failure
pub fn c_recovery(s: &mut Sim) -> Res {
    let Some(c) = case(s, &any, 3, 0) else { return Ok(false) };
    if c.m.got.vals.iter().any(|v| v.is_err()) || c.data.is_empty() {
        return Ok(false);
    }
    let z = c.p.zoo(s);
    let sk = seeky(s, &c.p);
    let t = |s: &Sim| format!("{}\ninput {}\n{}", c.p.text(s), hex(&c.data), c.p.src(s));
    match s.draw(3, "mode") {
        0 => {
            // reading: fail, seek back to the start, read again
            let mut st = stream(&s.w, "in", &c.data);
            st.policy = Policy::draw(&s.w);
            let times = 1 + s.draw(3, "times") as u32;
            let k = s.kind();
            st.err = Some(At { off: s.draw(c.m.touched.max(1), "fault.at"), kind: k, times });
            let mut tries = 0;
            loop {
                let before = st.errors;
                let real = safely("read", || real_read(s, &c.p, &mut st))?;
                tries += 1;
                if st.errors == before {
                    if real != c.m.got {
                        fail!(diff_class(&real, &c.m.got), "attempt {tries} after {} failures: got {real:?}, expected {:?}\n{}", st.errors, c.m.got, t(s));
                    }
                    break;
                }
                match real.vals.last() {
                    Some(Err(ErrC::Io(x))) if *x == format!("{k:?}") => {}
                    other => fail!("I/O error lost", "the stream failed with {k:?}, the result is {other:?}\n{}", t(s)),
                }
                if tries > 10 {
                    fail!("no progress", "still failing after {tries} attempts\n{}", t(s));
                }
                st.pos = 0;
                s.note(|| "rewind, try again".into());
            }
            let want_tries = if st.errors > 0 { times + 1 } else { 1 };
            if tries != want_tries {
                fail!("no progress", "{tries} attempts for {} failures\n{}", st.errors, t(s));
            }
            s.probe("read_retried");
            Ok(st.errors > 0)
        }
        1 => {
            // message by message: each failed one is read again from where it begins
            if sk || c.p.msgs.iter().any(|m| !z.defs[m.di].top || matches!(z.defs[m.di].ctx, CtxK::NDefault(_))) {
                return Ok(false);
            }
            let mut st = stream(&s.w, "in", &c.data);
            st.policy = Policy::draw(&s.w);
            let k = s.kind();
            st.err = Some(At { off: s.draw(c.m.touched.max(1), "fault.at"), kind: k, times: 1 + s.draw(2, "times") as u32 });
            let mut pos = 0u64;
            for (i, m) in c.p.msgs.iter().enumerate() {
                // only whole bytes are addressable without the skipped bits' order mattering
                if pos % 8 != 0 && (z.defs[m.di].has_lsb || z.defs[m.di].need_align) || !cfg!(feature = "bits") && z.defs[m.di].has_off {
                    break;
                }
                let top = c.p.ops(s, i).top.as_ref().unwrap();
                let mut tries = 0;
                let v = loop {
                    tries += 1;
                    // without `bits`, from_reader cannot skip
                    let base = if cfg!(feature = "bits") { 0 } else { pos };
                    st.pos = base / 8;
                    let before = st.errors;
                    let r = safely("from_reader", || (top.from_reader)(&mut Io(&mut st), (pos - base) as usize))?;
                    match r {
                        Ok((n, v)) => {
                            let n = n as u64 + base;
                            if st.errors != before {
                                fail!("value fabricated after an I/O error", "message {i}: {v:?}\n{}", t(s));
                            }
                            pos = n;
                            break v;
                        }
                        Err(e) => {
                            if st.errors == before || errc(&e) != ErrC::Io(format!("{k:?}")) {
                                fail!("I/O error lost", "message {i}, failures {}: {e:?}\n{}", st.errors, t(s));
                            }
                        }
                    }
                    if tries > 10 {
                        fail!("no progress", "message {i} fails again and again\n{}", t(s));
                    }
                };
                if c.m.got.vals[i] != Ok(v.clone()) {
                    fail!("wrong value", "message {i}: got {v:?}, expected {:?}\n{}", c.m.got.vals[i], t(s));
                }
                if pos != c.m.got.bits[i] {
                    fail!("wrong position", "message {i} ends at bit {pos}, expected {}\n{}", c.m.got.bits[i], t(s));
                }
            }
            s.probe("message_retried");
            Ok(st.errors > 0)
        }
        _ => {
            // writing: the value is not harmed by a failed write
            if sk {
                return Ok(false);
            }
            let vals: Vec<Val> = c.m.got.vals.iter().map(|v| v.clone().unwrap()).collect();
            let (want, out, _) = model_write(z, &c.p.msgs, &vals);
            if want.res.is_err() || out.is_empty() {
                return Ok(false);
            }
            let loose = unordered(s, &c.p);
            let mut st = stream(&s.w, "out", &[]);
            st.policy = Policy::draw(&s.w);
            let times = 1 + s.draw(3, "times") as u32;
            let k = s.kind();
            st.err = Some(At { off: s.draw(out.len() as u64, "fault.at"), kind: k, times });
            let mut tries = 0;
            loop {
                tries += 1;
                let before = st.errors;
                let put = safely("write", || real_write(&s.zoos[c.p.zi].1, &c.p.msgs, &vals, &mut st))?;
                if st.errors == before {
                    if put.res.is_err() {
                        fail!("refused a valid value", "attempt {tries}: {:?}\n{}", put.res, t(s));
                    }
                    break;
                }
                if put.res != Err(ErrC::Io(format!("{k:?}"))) {
                    fail!(if put.res.is_ok() { "success although bytes were lost" } else { "wrong kind of error" }, "attempt {tries}: {:?}\n{}", put.res, t(s));
                }
                if tries > 10 {
                    fail!("no progress", "still failing after {tries} attempts\n{}", t(s));
                }
                // start over
                st.pos = 0;
                st.data.clear();
            }
            if !same_bytes(&st.data, &out, loose) {
                fail!("wrong bytes", "after {tries} attempts the sink holds {}, expected {}\nvalue {vals:?}\n{}", hex(&st.data), hex(&out), t(s));
            }
            s.probe("write_retried");
            Ok(true)
        }
    }
}

// ---------------------------------------------------------------- sizes

/// what DekuSize announces, computed from the schema
pub fn model_size(z: &Zoo, di: usize) -> usize {
    let d = &z.defs[di];
    let fs = |fs: &[Field]| -> usize {
        fs.iter()
            .map(|f| {
                if f.id_store {
                    return 0;
                }
                let pad = |e: &Option<Ex>| match e {
                    Some(Ex::C(c)) => *c as usize * 8,
                    _ => 0,
                };
                let own = if f.skip == Skip::All { 0 } else { size_ty(z, &f.ty, f.bits, f.bytes) };
                own + f.magic.len() * 8 + f.pad_bits_before as usize + f.pad_bits_after as usize + pad(&f.pad_bytes_before) + pad(&f.pad_bytes_after)
            })
            .sum()
    };
    d.magic.len() * 8
        + match &d.body {
            Body::Struct(f) => fs(f),
            Body::Enum { id_ty, bits, bytes, variants, .. } => {
                id_ty.as_ref().map_or(0, |t| size_ty(z, t, *bits, *bytes)) + variants.iter().map(|v| fs(&v.fields)).max().unwrap_or(0)
            }
        }
}
fn size_ty(z: &Zoo, t: &Ty, bits: Option<u32>, bytes: Option<u32>) -> usize {
    let l = |w: u32| bits.unwrap_or(bytes.map_or(w, |b| b * 8)) as usize;
    match t {
        Ty::Int { w, .. } => l(*w),
        Ty::Usz { .. } => l(64),
        Ty::Bool => l(8),
        Ty::F32 => 32,
        Ty::F64 => 64,
        Ty::Arr(t, n) => size_ty(z, t, bits, bytes) * n,
        Ty::Tup(ts) => ts.iter().map(|t| size_ty(z, t, bits, bytes)).sum(),
        Ty::Def(d) => model_size(z, *d),
        _ => panic!("model: size of {t:?}"),
    }
}

/// announced sizes as buffer sizes
pub fn c_size(s: &mut Sim) -> Res {
    // types with a declared size
    let zi = s.draw(s.zoos.len() as u64, "zoo") as usize;
    let (z, ops) = &s.zoos[zi];
    let sized: Vec<usize> = ops.iter().filter(|o| o.size.is_some()).map(|o| o.idx).collect();
    let f = move |d: &Def| sized.contains(&d.idx);
    let Some(p) = plan_in(s, zi, &Want { filter: &f, max_msgs: 1, budget: 4 }) else { return Ok(false) };
    let Some(m) = model_read(s, &p, &p.data, dcore::model::Tail::Eof) else { return Ok(false) };
    s.note(|| p.text(s));
    mix(s, &p.data);
    let x = p.msgs[0];
    let (bits, bytes) = ops[x.di].size.unwrap();
    let t = |s: &Sim| format!("{}\n{}", p.text(s), p.src(s));
    let want = model_size(z, x.di);
    if bits != want {
        fail!("wrong size", "SIZE_BITS is {bits}, the declared layout has {want}\n{}", t(s));
    }
    let wb = if want % 8 == 0 { Some(want / 8) } else { None };
    if bytes != wb {
        fail!("wrong size", "SIZE_BYTES is {bytes:?}, SIZE_BITS {bits}\n{}", t(s));
    }
    let Ok(mut v) = m.got.vals[0].clone() else { return Ok(false) };
    if s.chance(1, 2, "tweak") {
        v = tweak(s, z, x.di, &v);
    }
    let (put, out, nbits) = model_write(z, &p.msgs, &[v.clone()]);
    if put.res.is_err() {
        return Ok(false);
    }
    if nbits > want as u64 {
        fail!("wrong size", "model: {nbits} bits for a declared size of {want}\n{}", t(s));
    }
    let exact = nbits == want as u64;
    // a sink with exactly the announced room takes the message, one byte less does not
    let cap = bits.div_ceil(8);
    let mut st = stream(&s.w, "out", &[]);
    st.policy = Policy::draw(&s.w);
    st.cap = Some(cap as u64);
    st.full_kind = s.kind();
    let put = safely("write", || real_write(ops, &p.msgs, &[v.clone()], &mut st))?;
    if put.res.is_err() {
        fail!("announced size too small", "a sink of {cap} bytes is full: {:?}, {} of {} bytes\nvalue {v:?}\n{}", put.res, st.data.len(), out.len(), t(s));
    }
    if put.bits != cap as u64 * 8 && exact {
        fail!("announced size too large", "{} bits written, announced {bits}\nvalue {v:?}\n{}", put.bits, t(s));
    }
    if exact && cap > 0 {
        let mut st = stream(&s.w, "out", &[]);
        st.policy = Policy::draw(&s.w);
        st.cap = Some(cap as u64 - 1);
        st.full_kind = deku::no_std_io::ErrorKind::Other;
        let put = safely("write", || real_write(ops, &p.msgs, &[v.clone()], &mut st))?;
        if put.res.is_ok() {
            fail!("announced size too large", "a sink of {} bytes takes a message of announced size {cap}\nvalue {v:?}\n{}", cap - 1, t(s));
        }
        s.probe("exact");
    }
    if let (Some(top), Some(n)) = (&ops[x.di].top, bytes) {
        // the usual use: a buffer on the stack
        let w = model_top(z, x.di, &v);
        if w.res == Err(ErrC::Limit) {
            return Ok(false);
        }
        if w.res.is_ok() {
            let mut buf = vec![0u8; n];
            let r = safely("to_slice", || (top.to_slice)(&v, &mut buf))?;
            match r {
                Ok(k) if k == w.bytes.len() => {}
                r => fail!("announced size too small", "to_slice into SIZE_BYTES = {n} bytes: {r:?}, {} expected\nvalue {v:?}\n{}", w.bytes.len(), t(s)),
            }
            s.probe("buffer");
        }
    }
    // and reading takes no more than that
    let mut st = stream(&s.w, "in", &p.data);
    st.policy = Policy::draw(&s.w);
    let g = safely("read", || real_read(s, &p, &mut st))?;
    if let Some(b) = g.bits.first() {
        if *b > bits as u64 {
            fail!("announced size too small", "{b} bits were read, announced {bits}\n{}", t(s));
        }
    }
    Ok(true)
}

// ---------------------------------------------------------------- update

/// the fields of this value, those of its variant if it is an enum
fn parts<'z, 'v>(d: &'z Def, v: &'v mut Val) -> (&'z [Field], &'v mut Vec<Val>) {
    match (&d.body, v) {
        (Body::Struct(fs), Val::L(x)) => (fs, x),
        (Body::Enum { variants, .. }, Val::E(i, x)) => (&variants[*i].fields, x),
        _ => panic!("model: update"),
    }
}

fn model_update(z: &Zoo, di: usize, v: &Val) -> Result<Val, ErrC> {
    let mut v = v.clone();
    let (fs, x) = parts(&z.defs[di], &mut v);
    let vis: Vec<usize> = (0..fs.len()).filter(|i| fs[*i].temp.is_none()).collect();
    for (k, i) in vis.iter().enumerate() {
        if let Some(e) = &fs[*i].update {
            let mut env = Env { f: vec![None; fs.len()], n: None, bits: 0 };
            for (k, i) in vis.iter().enumerate() {
                env.f[*i] = Some(x[k].clone());
            }
            let n = eval(e, &env);
            let Ty::Int { w, .. } = fs[*i].ty else { panic!() };
            if n < 0 || w < 64 && n >= 1 << w {
                return Err(ErrC::Parse);
            }
            x[k] = Val::U(n as u128);
        }
    }
    Ok(v)
}

/// the user changes how many elements a list has
fn edit_list(s: &Sim, z: &Zoo, t: &Ty, v: &mut Val) {
    let small = matches!(t, Ty::Vec(e) | Ty::BoxSlice(e) | Ty::ArcSlice(e) if matches!(**e, Ty::Int { s: false, .. }));
    let how = s.draw(5, "edit.how");
    match v {
        Val::L(l) => match how {
            0 | 1 if small => l.push(Val::U(s.draw(256, "byte") as u128)),
            0 | 1 => l.extend(l.first().cloned()),
            2 => {
                l.pop();
            }
            3 => l.clear(),
            _ => {
                let n = [200u64, 255, 256, 300][s.draw(4, "edit.long") as usize];
                if small {
                    *l = (0..n).map(|i| Val::U(i as u128 & 0xff)).collect();
                } else if let Some(x) = l.first().cloned() {
                    *l = vec![x; n as usize];
                }
            }
        },
        Val::M(m) if how == 2 => drop(m.pop()),
        Val::M(m) if how == 3 => m.clear(),
        Val::Set(m) if how == 2 => drop(m.pop()),
        Val::Set(m) if how == 3 => m.clear(),
        _ => tweak_ty(s, z, t, v),
    }
}

/// a history of edits, updates, transmissions
pub fn c_update(s: &mut Sim) -> Res {
    let f = |d: &Def| d.has_update;
    let Some(c) = case(s, &f, 1, 0) else { return Ok(false) };
    let Some(Ok(v)) = c.m.got.vals.first().cloned() else { return Ok(false) };
    let z = c.p.zoo(s);
    let x = c.p.msgs[0];
    let d = &z.defs[x.di];
    let upd = c.p.ops(s, 0).update.unwrap();
    let mut v = v;
    let mut fresh = true;
    let mut updates = 0;
    let t = |s: &Sim, v: &Val| format!("value {v:?}\n{}\n{}", c.p.text(s), c.p.src(s));
    for _ in 0..1 + s.draw(10, "steps") {
        match s.draw(4, "step") {
            0 | 1 => {
                // edit, mostly the lists whose length is kept elsewhere
                let (fs, xs) = parts(d, &mut v);
                let vis: Vec<usize> = (0..fs.len()).filter(|i| fs[*i].temp.is_none()).collect();
                let lens: Vec<usize> = vis.iter().enumerate().filter(|(_, i)| fs.iter().any(|f| f.update.as_ref().is_some_and(|e| e.len_of() == Some(**i)))).map(|(k, _)| k).collect();
                if !lens.is_empty() && s.chance(3, 4, "edit.list") {
                    let k = lens[s.draw(lens.len() as u64, "edit.which") as usize];
                    edit_list(s, z, &fs[vis[k]].ty, &mut xs[k]);
                } else {
                    v = tweak(s, z, x.di, &v);
                }
                fresh = false;
                s.note(|| format!("edit: {v:?}"));
            }
            2 => {
                let want = model_update(z, x.di, &v);
                let got = safely("update", || upd(&v))?.map_err(|e| errc(&e));
                if got != want {
                    let cl = match (&got, &want) {
                        (Ok(_), Ok(_)) => "update set a wrong value",
                        (Ok(_), Err(_)) => "update truncated a length",
                        _ => "update refused",
                    };
                    fail!(cl, "update gives {got:?}, expected {want:?}\n{}", t(s, &v));
                }
                s.note(|| format!("update: {want:?}"));
                if let Ok(n) = want {
                    v = n;
                    fresh = true;
                    updates += 1;
                    s.probe("updated");
                    // updating again changes nothing (unless a field follows another one that is updated later)
                    let again = safely("update", || upd(&v))?.map_err(|e| errc(&e));
                    if again != model_update(z, x.di, &v) {
                        fail!("update is not idempotent", "{again:?}\n{}", t(s, &v));
                    }
                } else {
                    s.probe("length_does_not_fit");
                }
            }
            _ => {
                // transmit what we have; after an update the receiver gets the same value
                let p = Plan { zi: c.p.zi, msgs: c.p.msgs.clone(), data: vec![], ends: vec![], vals: vec![] };
                write_matches(s, &p, &[v.clone()])?;
                if fresh && !d.seeky {
                    let mut st = stream(&s.w, "wire", &[]);
                    st.policy = Policy::draw(&s.w);
                    let put = safely("write", || real_write(&s.zoos[c.p.zi].1, &c.p.msgs, &[v.clone()], &mut st))?;
                    if put.res.is_ok() {
                        let wire = st.data.clone();
                        let mut st = stream(&s.w, "wire", &wire);
                        st.policy = Policy::draw(&s.w);
                        let got = safely("read", || real_read(s, &c.p, &mut st))?;
                        let Some(m) = model_read(s, &p, &wire, Tail::Eof) else { continue };
                        if got != m.got {
                            fail!(diff_class(&got, &m.got), "received {got:?}, expected {:?}\n{}", m.got, t(s, &v));
                        }
                        if got.vals.first() == Some(&Ok(v.clone())) {
                            s.probe("received");
                        }
                    }
                }
            }
        }
    }
    Ok(updates > 0)
}
