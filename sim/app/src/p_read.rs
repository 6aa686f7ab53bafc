//! Scenarios around reading: delivery, faults, truncation, framing, positions,
//! hostile input, and the attribute families whose meaning must survive all that.

use crate::fail;
use crate::sim::*;
use dcore::io::*;
use dcore::model::*;
use dgen::schema::*;

pub struct Case {
    pub p: Plan,
    pub data: Vec<u8>,
    pub m: ModelGot,
}

/// As [`case`], with the inputs whose outcome is not specified except that it
/// has to be an error: elements that overshoot the size announced for them.
pub fn case_or_over(s: &mut Sim, filter: &dyn Fn(&Def) -> bool, msgs: u64, rate: u64) -> Result<Option<Case>, Bad> {
    let budget = 2 + s.draw(12, "budget") as i64;
    let Some(p) = plan(s, &Want { filter, max_msgs: msgs, budget }) else { return Ok(None) };
    let mut data = p.data.clone();
    corrupt(s, &mut data, rate);
    if let Some(m) = model_read(s, &p, &data, Tail::Eof) {
        return Ok(Some(noted(s, p, data, m)));
    }
    let z = p.zoo(s);
    let mut m = Dec::bytes(z, &data, Tail::Eof);
    let mut n = 0;
    for x in &p.msgs {
        match m.def(x.di, &x.leaf, Some(x.n)) {
            Ok(_) => n += 1,
            Err(_) => break,
        }
    }
    if m.over {
        s.note(|| p.text(s));
        mix(s, &data);
        let mut st = stream(&s.w, "in", &data);
        st.policy = Policy::draw(&s.w);
        let real = safely("read from a stream", || real_read(s, &p, &mut st))?;
        if real.vals.len() > n && real.vals[n].is_ok() {
            fail!("accepted invalid input", "message {n}: elements overshoot the size announced for them, got {real:?}\n{}\ninput {}\n{}", p.text(s), hex(&data), p.src(s));
        }
        s.probe("size_overshot");
    }
    Ok(None)
}

pub fn case(s: &mut Sim, filter: &dyn Fn(&Def) -> bool, msgs: u64, rate: u64) -> Option<Case> {
    let budget = 2 + s.draw(12, "budget") as i64;
    let p = plan(s, &Want { filter, max_msgs: msgs, budget })?;
    let mut data = p.data.clone();
    corrupt(s, &mut data, rate);
    let m = model_read(s, &p, &data, Tail::Eof)?;
    Some(noted(s, p, data, m))
}
fn noted(s: &mut Sim, p: Plan, data: Vec<u8>, m: ModelGot) -> Case {
    s.note(|| p.text(s));
    mix(s, &data);
    match m.got.vals.last() {
        Some(Ok(_)) => s.probe("decodes"),
        Some(Err(ErrC::Incomplete)) => s.probe("incomplete"),
        Some(Err(ErrC::Parse)) => s.probe("parse_error"),
        Some(Err(ErrC::Assertion)) => s.probe("assertion"),
        _ => s.probe("other_error"),
    }
    Case { p, data, m }
}
pub fn mix(s: &Sim, data: &[u8]) {
    let mut w = s.w.borrow_mut();
    for c in data.chunks(8) {
        let mut b = [0u8; 8];
        b[..c.len()].copy_from_slice(c);
        w.mix(u64::from_le_bytes(b));
    }
}

pub fn any(_: &Def) -> bool {
    true
}

/// class of a difference between two outcomes
pub fn diff_class(real: &Got, model: &Got) -> &'static str {
    for i in 0..real.vals.len().max(model.vals.len()) {
        match (real.vals.get(i), model.vals.get(i)) {
            (Some(Ok(a)), Some(Ok(b))) if a != b => return "wrong value",
            (Some(Ok(_)), Some(Err(_))) => return "accepted invalid input",
            (Some(Err(_)), Some(Ok(_))) => return "rejected valid input",
            (Some(Err(a)), Some(Err(b))) if a != b => return "wrong kind of error",
            _ => {}
        }
    }
    "wrong position"
}
pub fn same(s: &Sim, c: &Case, how: &str, real: &Got, data: &[u8]) -> Result<(), Bad> {
    if *real != c.m.got {
        fail!(
            diff_class(real, &c.m.got),
            "{how}: got {:?}, the format says {:?}\n{}\ninput {}\n{}",
            real,
            c.m.got,
            c.p.text(s),
            hex(data),
            c.p.src(s)
        );
    }
    Ok(())
}

/// `data` behind `off` other bits
pub fn shifted(s: &Sim, data: &[u8], off: u64) -> Vec<u8> {
    if off % 8 == 0 {
        let mut v: Vec<u8> = (0..off / 8).map(|_| s.draw(256, "prefix") as u8).collect();
        v.extend_from_slice(data);
        return v;
    }
    let n = off as usize + data.len() * 8;
    let mut v = vec![0u8; n.div_ceil(8)];
    for i in 0..n {
        let b = if i < off as usize { s.draw(2, "prefix") == 1 } else { data[(i - off as usize) / 8] >> (7 - (i - off as usize) % 8) & 1 == 1 };
        if b {
            v[i / 8] |= 0x80 >> (i % 8);
        }
    }
    v
}
pub fn pick_off(s: &Sim, d: &Def) -> u64 {
    if d.seeky || cfg!(not(feature = "bits")) {
        return 0;
    }
    let msb = matches!(d.order, None | Some(Or::Msb)) && !matches!(d.ctx, CtxK::Order | CtxK::EndianOrder);
    match s.draw(4, "off.kind") {
        0 | 1 => 0,
        2 => 8 * s.draw(4, "off"),
        _ if msb && !d.need_align && d.tag != "lsb" && !d.has_lsb => s.draw(20, "off"),
        _ => 8 * s.draw(2, "off"),
    }
}

/// Model of a single message behind `off` bits
pub fn model_off(s: &Sim, c: &Plan, data: &[u8], off: u64) -> Option<(Result<Val, ErrC>, u64)> {
    let z = c.zoo(s);
    let mut m = Dec::bytes(z, data, Tail::Eof);
    let x = &c.msgs[0];
    let r = m.skip(off, Or::Msb).and_then(|_| m.def(x.di, &root_leaf(), None));
    if r == Err(ErrC::Limit) {
        return None;
    }
    Some((r, m.bits))
}

/// The reader is asked whether the stream is at its end before some messages:
/// the answer is right, and asking changes nothing.
fn asking(s: &mut Sim, c: &Case, noseek: bool) -> Result<(), Bad> {
    s.probe("entry_asking_for_the_end");
    let z = c.p.zoo(s);
    let asks: Vec<bool> = (0..=c.p.msgs.len()).map(|_| s.chance(1, 2, "ask.here")).collect();
    let mut m = Dec::bytes(z, &c.data, Tail::Eof);
    let mut want = Got { vals: vec![], bits: vec![] };
    let mut ends = vec![];
    for (i, x) in c.p.msgs.iter().enumerate() {
        if asks[i] {
            ends.push(m.at_end().unwrap());
        }
        let r = m.def(x.di, &x.leaf, Some(x.n));
        if r == Err(ErrC::Limit) {
            return Ok(());
        }
        let stop = r.is_err();
        want.vals.push(r);
        if stop {
            break;
        }
        want.bits.push(m.bits);
    }
    if want.vals.last().is_some_and(|v| v.is_ok()) && asks[c.p.msgs.len()] {
        ends.push(m.at_end().unwrap());
    }
    let mut st = stream(&s.w, "in", &c.data);
    st.policy = Policy::draw(&s.w);
    st.seekable = !noseek;
    let run = |io: &mut dyn Rws| {
        let mut g = Got { vals: vec![], bits: vec![] };
        let mut real_ends = vec![];
        let mut rd = deku::reader::Reader::new(Io(io));
        for (i, x) in c.p.msgs.iter().enumerate() {
            if asks[i] {
                real_ends.push(rd.end());
            }
            let r = (c.p.ops(s, i).read)(&mut rd, x.ctx());
            let stop = r.is_err();
            g.vals.push(r.map_err(|e| dcore::support::errc(&e)));
            if stop {
                return (g, real_ends);
            }
            g.bits.push(rd.bits_read as u64);
        }
        if asks[c.p.msgs.len()] {
            real_ends.push(rd.end());
        }
        (g, real_ends)
    };
    let (real, real_ends) = if noseek {
        let mut ns = Ns(deku::noseek::NoSeek::new(&mut st));
        safely("read and ask for the end", || run(&mut ns))?
    } else {
        safely("read and ask for the end", || run(&mut st))?
    };
    if real != want {
        fail!(diff_class(&real, &want), "asked for the end before messages {asks:?}: got {real:?}, the format says {want:?}\n{}\ninput {}\n{}", c.p.text(s), hex(&c.data), c.p.src(s));
    }
    if real_ends != ends {
        fail!("wrong end", "asked for the end before messages {asks:?}: got {real_ends:?}, expected {ends:?}\n{}\ninput {}\n{}", c.p.text(s), hex(&c.data), c.p.src(s));
    }
    Ok(())
}

/// Every way of handing the same bytes to the library.
pub fn deliver(s: &mut Sim, c: &Case) -> Result<(), Bad> {
    let z = c.p.zoo(s);
    let single_top = c.p.msgs.len() == 1 && z.defs[c.p.msgs[0].di].top;
    let seeky = c.p.msgs.iter().any(|m| z.defs[m.di].seeky);
    let mode = s.draw(if single_top { 6 } else { 2 }, "entry");
    if mode < 2 && s.chance(1, 4, "ask") {
        return asking(s, c, mode == 1 && !seeky);
    }
    match mode {
        1 if !seeky => {
            s.probe("entry_noseek_stream");
            let mut st = stream(&s.w, "in", &c.data);
            st.policy = Policy::draw(&s.w);
            st.seekable = false;
            let real = safely("read from a non-seekable stream", || {
                let mut ns = Ns(deku::noseek::NoSeek::new(&mut st));
                real_read(s, &c.p, &mut ns)
            })?;
            same(s, c, "NoSeek stream", &real, &c.data)
        }
        0 | 1 => {
            s.probe("entry_stream");
            let mut st = stream(&s.w, "in", &c.data);
            st.policy = Policy::draw(&s.w);
            let real = safely("read from a stream", || real_read(s, &c.p, &mut st))?;
            same(s, c, "stream", &real, &c.data)
        }
        m => {
            let d = &z.defs[c.p.msgs[0].di];
            let top = c.p.ops(s, 0).top.as_ref().unwrap();
            let off = if m == 5 { 0 } else { pick_off(s, d) };
            let data = shifted(s, &c.data, off);
            let Some((want, bits)) = model_off(s, &c.p, &data, off) else { return Ok(()) };
            let ctx = |s: &Sim| format!("{}\ninput {} at bit {off}\n{}", c.p.text(s), hex(&data), c.p.src(s));
            let cls = |r: &Result<Val, ErrC>| match (r, &want) {
                (Ok(_), Ok(_)) => "wrong value",
                (Ok(_), Err(_)) => "accepted invalid input",
                (Err(_), Ok(_)) => "rejected valid input",
                _ => "wrong kind of error",
            };
            match m {
                2 | 3 => {
                    s.probe("entry_from_reader");
                    let mut st = stream(&s.w, "in", &data);
                    st.policy = Policy::draw(&s.w);
                    let r = safely("from_reader", || (top.from_reader)(&mut Io(&mut st), off as usize))?;
                    let (n, v) = match r {
                        Ok((n, v)) => (n as u64, Ok(v)),
                        Err(e) => (0, Err(dcore::support::errc(&e))),
                    };
                    if v != want {
                        fail!(cls(&v), "from_reader: got {v:?}, the format says {want:?}\n{}", ctx(s));
                    }
                    if v.is_ok() && n != bits {
                        fail!("wrong position", "from_reader consumed {n} bits, the message ends at bit {bits}\n{}", ctx(s));
                    }
                }
                4 => {
                    s.probe("entry_from_bytes");
                    let r = safely("from_bytes", || (top.from_bytes)(&data, off as usize))?;
                    match r {
                        Ok(((rest, bit, tail), v)) => {
                            let v = Ok(v);
                            if bits / 8 > data.len() as u64 {
                                fail!("accepted invalid input", "from_bytes returned {v:?} although the position is beyond the input\n{}", ctx(s));
                            }
                            if v != want {
                                fail!(cls(&v), "from_bytes: got {v:?}, the format says {want:?}\n{}", ctx(s));
                            }
                            if rest as u64 != data.len() as u64 - bits / 8 || bit as u64 != bits % 8 || !tail {
                                fail!("wrong position", "from_bytes left ({rest} bytes, bit {bit}, tail {tail}), the message ends at bit {bits} of {}\n{}", data.len() * 8, ctx(s));
                            }
                        }
                        Err(e) => {
                            let v = Err(dcore::support::errc(&e));
                            let beyond = want.is_ok() && bits / 8 > data.len() as u64;
                            if beyond && v == Err(ErrC::Incomplete) {
                                return Ok(());
                            }
                            if v != want {
                                fail!(cls(&v), "from_bytes: got {v:?}, the format says {want:?}\n{}", ctx(s));
                            }
                        }
                    }
                }
                _ => {
                    s.probe("entry_try_from");
                    let r = safely("try_from", || (top.try_from)(&data))?.map_err(|e| dcore::support::errc(&e));
                    if want.is_ok() && bits % 8 != 0 {
                        return Ok(()); // messages of whole bytes only
                    }
                    let want = match &want {
                        Ok(_) if (bits / 8) < data.len() as u64 => Err(ErrC::Parse),
                        Ok(_) if bits / 8 > data.len() as u64 => Err(ErrC::Incomplete),
                        w => w.clone(),
                    };
                    if r != want {
                        let k = match (&r, &want) {
                            (Ok(_), Ok(_)) => "wrong value",
                            (Ok(_), Err(_)) => "accepted invalid input",
                            (Err(_), Ok(_)) => "rejected valid input",
                            _ => "wrong kind of error",
                        };
                        fail!(k, "try_from: got {r:?}, the format says {want:?}\n{}", ctx(s));
                    }
                }
            }
            Ok(())
        }
    }
}

/// read-delivery
pub fn c_delivery(s: &mut Sim) -> Res {
    let Some(c) = case_or_over(s, &any, 3, 3)? else { return Ok(false) };
    deliver(s, &c)?;
    // the same bytes again with another delivery
    if s.chance(1, 3, "again") {
        deliver(s, &c)?;
    }
    Ok(true)
}

/// read-faults
pub fn c_read_faults(s: &mut Sim) -> Res {
    let Some(c) = case(s, &any, 3, 6) else { return Ok(false) };
    let k = s.kind();
    let z = c.p.zoo(s);
    let seeky = c.p.msgs.iter().any(|m| z.defs[m.di].seeky);
    // place the fault inside what the message needs
    let f = if c.m.touched == 0 || s.chance(1, 8, "fault.anywhere") { s.draw(c.data.len() as u64 + 2, "fault.at") } else { s.draw(c.m.touched, "fault.at") };
    let name = format!("{k:?}");
    // what precedes the fault is delivered, then the error
    let head = &c.data[..(f as usize).min(c.data.len())];
    let tail = if f as usize > c.data.len() { Tail::Eof } else { Tail::Err(name.clone()) };
    let Some(want) = model_read(s, &c.p, head, tail) else { return Ok(false) };
    let want = if seeky {
        // positions are relative to the whole stream
        let mut m = Dec::bytes(z, &c.data, Tail::Eof);
        m.err_at = Some((f, name.clone()));
        let x = c.p.msgs[0];
        let r = m.def(x.di, &x.leaf, Some(x.n));
        if r == Err(ErrC::Limit) {
            return Ok(false);
        }
        let bits = if r.is_ok() { vec![m.bits] } else { vec![] };
        Got { vals: vec![r], bits }
    } else {
        want.got
    };
    if !seeky && s.chance(1, 6, "loop") {
        // the usual loop: read until the end
        let mut m = Dec::bytes(z, head, if f as usize > c.data.len() { Tail::Eof } else { Tail::Err(name.clone()) });
        let mut want = vec![];
        for x in &c.p.msgs {
            match m.at_end() {
                Ok(true) => {
                    want.push(None);
                    break;
                }
                Ok(false) | Err(_) => {}
            }
            let r = m.def(x.di, &x.leaf, Some(x.n));
            if r == Err(ErrC::Limit) {
                return Ok(false);
            }
            let stop = r.is_err();
            want.push(Some(r));
            if stop {
                break;
            }
        }
        let mut st = stream(&s.w, "in", &c.data);
        st.policy = Policy::draw(&s.w);
        st.err = Some(At { off: f, kind: k, times: u32::MAX });
        let got = safely("read until the end", || {
            let mut rd = deku::reader::Reader::new(Io(&mut st));
            let mut got = vec![];
            for (i, x) in c.p.msgs.iter().enumerate() {
                if rd.end() {
                    got.push(None);
                    break;
                }
                let r = (c.p.ops(s, i).read)(&mut rd, x.ctx()).map_err(|e| dcore::support::errc(&e));
                let stop = r.is_err();
                got.push(Some(r));
                if stop {
                    break;
                }
            }
            got
        })?;
        // the failing read may come before a check that would have failed anyway
        let early = got.len() == want.len()
            && got[..got.len() - 1] == want[..want.len() - 1]
            && matches!(&got[got.len() - 1], Some(Err(ErrC::Io(x))) if *x == name)
            && matches!(&want[want.len() - 1], Some(Err(ErrC::Parse | ErrC::Assertion)));
        // and a stream known to be too short need not be read
        let short = matches!(want.last(), Some(Some(Err(ErrC::Io(_)))))
            && matches!(got.last(), Some(Some(Err(ErrC::Incomplete))))
            && c.m.got.vals.len() == want.len()
            && c.m.got.vals.last() == Some(&Err(ErrC::Incomplete));
        if got != want && !early && !short {
            let cl = if got.last() == Some(&None) { "I/O error taken for the end" } else { "I/O error lost" };
            fail!(cl, "the stream fails with {name} at byte {f}, read until end(): got {got:?}, expected {want:?}\n{}\ninput {}\n{}", c.p.text(s), hex(&c.data), c.p.src(s));
        }
        s.probe("read_until_end");
        return Ok(st.errors > 0);
    }
    let ns = !seeky && s.chance(1, 4, "noseek");
    let mut st = stream(&s.w, "in", &c.data);
    st.policy = Policy::draw(&s.w);
    st.err = Some(At { off: f, kind: k, times: if seeky { u32::MAX } else { s.times() } });
    let single_top = c.p.msgs.len() == 1 && z.defs[c.p.msgs[0].di].top && c.p.msgs[0].leaf.en == En::Le;
    let mode = if single_top { s.draw(2, "entry") } else { 0 };
    let real = if mode == 1 {
        let top = c.p.ops(s, 0).top.as_ref().unwrap();
        let r = safely("from_reader", || (top.from_reader)(&mut Io(&mut st), 0))?;
        match r {
            Ok((n, v)) => Got { vals: vec![Ok(v)], bits: vec![n as u64] },
            Err(e) => Got { vals: vec![Err(dcore::support::errc(&e))], bits: vec![] },
        }
    } else if ns {
        st.seekable = false;
        safely("read", || real_read(s, &c.p, &mut Ns(deku::noseek::NoSeek::new(&mut st))))?
    } else {
        safely("read", || real_read(s, &c.p, &mut st))?
    };
    let fired = st.errors > 0;
    if mode == 1 && matches!(z.defs[c.p.msgs[0].di].ctx, CtxK::NDefault(_)) {
        // the default context, not the drawn one
        let last = real.vals.last().unwrap();
        if fired && !matches!(last, Err(ErrC::Io(x)) if *x == name) && !matches!(last, Err(ErrC::Parse | ErrC::Assertion)) {
            fail!("I/O error lost", "the stream failed with {name} at byte {f}, the result is {last:?}\n{}\n{}", c.p.text(s), c.p.src(s));
        }
        return Ok(fired);
    }
    if !want.accepts(&real, &c.m.got) {
        // the failing read may come before a check that would have failed anyway
        let last_w = want.vals.last().unwrap();
        let last_r = real.vals.last().unwrap();
        let early = fired
            && real.vals.len() == want.vals.len()
            && real.vals[..real.vals.len() - 1] == want.vals[..want.vals.len() - 1]
            && matches!(last_r, Err(ErrC::Io(x)) if *x == name)
            && matches!(last_w, Err(ErrC::Parse | ErrC::Assertion));
        if !early {
            let cl = if fired && last_r.is_ok() {
                "value fabricated after an I/O error"
            } else if fired {
                "I/O error lost"
            } else {
                diff_class(&real, &want)
            };
            fail!(cl, "the stream fails with {name} at byte {f} (fired: {fired}): got {real:?}, expected {want:?}\n{}\ninput {}\n{}", c.p.text(s), hex(&c.data), c.p.src(s));
        }
    }
    if fired {
        s.probe("fault_fired");
    }
    Ok(fired)
}

/// truncation
pub fn c_truncation(s: &mut Sim) -> Res {
    let Some(c) = case(s, &any, 3, 0) else { return Ok(false) };
    if c.m.got.vals.iter().any(|v| v.is_err()) || c.m.touched == 0 {
        return Ok(false);
    }
    let z = c.p.zoo(s);
    let n = c.p.msgs.len();
    // end of the stream at an arbitrary byte, often inside the last message
    let cut = s.draw(c.data.len() as u64 + 1, "cut") as usize;
    let data = c.data[..cut].to_vec();
    s.fault(Fault::truncation);
    let Some(m) = model_read(s, &c.p, &data, Tail::Eof) else { return Ok(false) };
    let mut st = stream(&s.w, "in", &data);
    st.policy = Policy::draw(&s.w);
    let real = safely("read of a truncated stream", || real_read(s, &c.p, &mut st))?;
    if real != m.got {
        let cl = match (real.vals.last(), m.got.vals.last()) {
            (Some(Ok(_)), Some(Err(_))) => "value from a truncated stream",
            (Some(Err(_)), Some(Err(ErrC::Incomplete))) => "truncation not reported as incomplete",
            _ => diff_class(&real, &m.got),
        };
        fail!(cl, "{cut} of {} bytes arrive: got {real:?}, expected {:?}\n{}\ninput {}\n{}", c.data.len(), m.got, c.p.text(s), hex(&data), c.p.src(s));
    }
    if let Some(Err(ErrC::Incomplete)) = real.vals.last() {
        s.probe("incomplete_reported");
        // the size hint is a promise that more input is needed
        let mut st = stream(&s.w, "in", &data);
        st.policy = Policy::draw(&s.w);
        let asks = s.draw(8, "asks");
        let e = safely("read of a truncated stream", || real_read_err(s, &c.p, asks, &mut st))?;
        match &e {
            Some(deku::DekuError::Incomplete(n)) if n.bit_size() == 0 => {
                fail!("incomplete without a need", "{cut} of {} bytes arrive: {e:?}\n{}\ninput {}\n{}", c.data.len(), c.p.text(s), hex(&data), c.p.src(s));
            }
            Some(deku::DekuError::Incomplete(_)) => {}
            _ => fail!("truncation not reported as incomplete", "{cut} of {} bytes arrive, asked for the end ({asks:b}): got {e:?}\n{}\ninput {}\n{}", c.data.len(), c.p.text(s), hex(&data), c.p.src(s)),
        }
        // with the rest delivered the same reader input decodes
        let mut st = stream(&s.w, "in", &c.data);
        st.policy = Policy::draw(&s.w);
        let again = safely("read of the complete stream", || real_read(s, &c.p, &mut st))?;
        same(s, &c, "complete stream after an incomplete one", &again, &c.data)?;
    }
    // container entry points
    let d = &z.defs[c.p.msgs[0].di];
    if n == 1 && d.top && s.chance(1, 2, "bytes") {
        let top = c.p.ops(s, 0).top.as_ref().unwrap();
        let Some((want, bits)) = model_off(s, &c.p, &data, 0) else { return Ok(true) };
        let r = safely("from_bytes", || (top.from_bytes)(&data, 0))?.map(|x| x.1).map_err(|e| dcore::support::errc(&e));
        let beyond = want.is_ok() && bits / 8 > data.len() as u64;
        let ok = if beyond { r == Err(ErrC::Incomplete) } else { r == want };
        if !ok {
            let cl = if r.is_ok() { "value from a truncated stream" } else { "truncation not reported as incomplete" };
            fail!(cl, "from_bytes of {cut} of {} bytes: got {r:?}, expected {want:?}\n{}\ninput {}\n{}", c.data.len(), c.p.text(s), hex(&data), c.p.src(s));
        }
    }
    Ok(true)
}

/// framing on one stream: no byte beyond the message is asked for
pub fn c_framing_direct(s: &mut Sim) -> Res {
    let f = |d: &Def| !d.greedy;
    let Some(c) = case(s, &f, 3, 0) else { return Ok(false) };
    if c.m.got.vals.iter().any(|v| v.is_err()) {
        return Ok(false);
    }
    let z = c.p.zoo(s);
    let seeky = c.p.msgs.iter().any(|m| z.defs[m.di].seeky);
    // what follows belongs to somebody else
    let exact = s.chance(1, 2, "exact");
    let mut data = c.data.clone();
    if !seeky {
        data.truncate(c.m.touched as usize);
        if !exact {
            for _ in 0..1 + s.draw(9, "following") {
                data.push(s.draw(256, "byte") as u8);
            }
            s.fault(Fault::trailing_garbage);
        }
    } else if s.chance(1, 2, "skip") {
        return Ok(false);
    }
    let mut st = stream(&s.w, "in", &data);
    st.policy = Policy::draw(&s.w);
    let ns = !seeky && s.chance(1, 3, "noseek");
    let real = if ns {
        st.seekable = false;
        safely("read", || real_read(s, &c.p, &mut Ns(deku::noseek::NoSeek::new(&mut st))))?
    } else {
        safely("read", || real_read(s, &c.p, &mut st))?
    };
    same(s, &c, "exact stream", &real, &data)?;
    if st.delivered > c.m.touched {
        fail!("read past the end of the message", "{} bytes were taken from the stream, the message ends after {}\n{}\ninput {}\n{}", st.delivered, c.m.touched, c.p.text(s), hex(&data), c.p.src(s));
    }
    if st.eof_reads > 0 {
        fail!("read past the end of the message", "asked for more input although the message was complete\n{}\ninput {}\n{}", c.p.text(s), hex(&data), c.p.src(s));
    }
    if !seeky && !ns {
        // a user of the same stream continues right behind the message
        let at = st.pos;
        if at != c.m.touched {
            fail!("stream left at the wrong place", "the stream is at byte {at}, the message ends after {}\n{}\n{}", c.m.touched, c.p.text(s), c.p.src(s));
        }
    }
    s.probe(if exact { "exact" } else { "followed" });
    Ok(true)
}

/// positions
pub fn c_position(s: &mut Sim) -> Res {
    let Some(c) = case(s, &any, 4, 8) else { return Ok(false) };
    let z = c.p.zoo(s);
    if s.chance(1, 4, "ask") {
        asking(s, &c, false)?;
    }
    let mut st = stream(&s.w, "in", &c.data);
    st.policy = Policy::draw(&s.w);
    let real = safely("read", || real_read(s, &c.p, &mut st))?;
    if real.bits != c.m.got.bits || real.vals.len() != c.m.got.vals.len() {
        fail!("wrong position", "bits_read after each message {:?}, expected {:?}\n{}\n{}", real.bits, c.m.got.bits, c.p.text(s), c.p.src(s));
    }
    // offsets seen by the format's own expressions show up in the values
    for (a, b) in real.vals.iter().zip(&c.m.got.vals) {
        if a.is_ok() && b.is_ok() && a != b {
            fail!("wrong value", "got {a:?}, expected {b:?}\n{}\n{}", c.p.text(s), c.p.src(s));
        }
    }
    let all_ok = c.m.got.vals.iter().all(|v| v.is_ok());
    let tops = c.p.msgs.iter().all(|m| {
        let d = &z.defs[m.di];
        d.top && !d.seeky && matches!(d.order, None | Some(Or::Msb)) && matches!(d.ctx, CtxK::None) && !d.has_lsb
    });
    if all_ok && tops {
        // (rest, bit) of one from_bytes call is the input of the next one
        s.probe("chained_from_bytes");
        let mut rest: &[u8] = &c.data;
        let mut bit = 0usize;
        let mut pos = 0u64;
        for (i, _) in c.p.msgs.iter().enumerate() {
            let top = c.p.ops(s, i).top.as_ref().unwrap();
            let aligned_start = pos / 8 * 8;
            // expressions over the absolute position see the slice, so compare with the model on the slice
            let Some((want, wb)) = ({
                let mut m = Dec::bytes(z, rest, Tail::Eof);
                let x = &c.p.msgs[i];
                let r = m.skip(bit as u64, Or::Msb).and_then(|_| m.def(x.di, &root_leaf(), None));
                if r == Err(ErrC::Limit) { None } else { Some((r, m.bits)) }
            }) else {
                return Ok(true);
            };
            let r = safely("from_bytes", || (top.from_bytes)(rest, bit))?;
            match r {
                Ok(((n, b, tail), v)) => {
                    if want.is_err() {
                        fail!("accepted invalid input", "chained from_bytes, message {i}: got {v:?}, expected {want:?}\n{}\n{}", c.p.text(s), c.p.src(s));
                    }
                    if want != Ok(v.clone()) {
                        fail!("wrong value", "chained from_bytes, message {i}: got {v:?}, expected {want:?}\n{}\n{}", c.p.text(s), c.p.src(s));
                    }
                    if !tail || n as u64 != rest.len() as u64 - wb / 8 || b as u64 != wb % 8 {
                        fail!("wrong position", "from_bytes left {n} bytes and bit {b}, the message ends at bit {wb} of {}\n{}\n{}", rest.len() * 8, c.p.text(s), c.p.src(s));
                    }
                    pos = aligned_start + wb;
                    rest = &rest[rest.len() - n..];
                    bit = b;
                }
                Err(e) if want == Err(dcore::support::errc(&e)) => return Ok(true),
                Err(e) => fail!("rejected valid input", "chained from_bytes, message {i}: {e:?}\n{}\n{}", c.p.text(s), c.p.src(s)),
            }
        }
    } else if c.p.msgs.len() == 1 && z.defs[c.p.msgs[0].di].top {
        let top = c.p.ops(s, 0).top.as_ref().unwrap();
        let off = pick_off(s, &z.defs[c.p.msgs[0].di]);
        let data = shifted(s, &c.data, off);
        if let Some((Ok(want), bits)) = model_off(s, &c.p, &data, off) {
            let mut st = stream(&s.w, "in", &data);
            st.policy = Policy::draw(&s.w);
            match safely("from_reader", || (top.from_reader)(&mut Io(&mut st), off as usize))? {
                Ok((n, v)) if n as u64 == bits && v == want => {}
                other => fail!("wrong position", "from_reader at bit {off}: {other:?}, expected ({bits}, {want:?})\n{}\n{}", c.p.text(s), c.p.src(s)),
            }
        }
    }
    // writer accounting
    if all_ok {
        let vals: Vec<Val> = c.m.got.vals.iter().map(|v| v.clone().unwrap()).collect();
        let seeky = c.p.msgs.iter().any(|m| z.defs[m.di].seeky);
        let unordered = c.p.msgs.iter().any(|m| z.defs[m.di].unordered);
        if !seeky {
            let mut e = Enc::new(z);
            let mut want = vec![];
            let mut ok = true;
            for (i, m) in c.p.msgs.iter().enumerate() {
                if e.def(m.di, &vals[i], &m.leaf, Some(m.n)).is_err() {
                    ok = false;
                    break;
                }
                // pending bits are only visible with `bits` and `alloc`
                want.push(if dcore::support::HAS_BITVEC { e.bits } else { e.bits / 8 * 8 });
            }
            if ok {
                let total = e.bits.div_ceil(8) * 8;
                let mut st = stream(&s.w, "out", &[]);
                st.policy = Policy::draw(&s.w);
                let (got, fin) = safely("write", || {
                    let mut wr = deku::writer::Writer::new(Io(&mut st));
                    let mut got = vec![];
                    for (i, m) in c.p.msgs.iter().enumerate() {
                        if (c.p.ops(s, i).write)(&mut wr, &vals[i], m.ctx()).is_err() {
                            break;
                        }
                        got.push(wr.bits_written as u64 + pending(&mut wr));
                    }
                    let r = wr.finalize();
                    (got, r.map(|_| wr.bits_written as u64))
                })?;
                if got != want || fin != Ok(total) {
                    fail!("wrong position", "bits written after each message {got:?}, finally {fin:?}; expected {want:?}, {total}\n{}\n{}", c.p.text(s), c.p.src(s));
                }
                if st.data.len() as u64 * 8 != total {
                    fail!("wrong position", "the sink holds {} bytes, bits_written is {total}\n{}\n{}", st.data.len(), c.p.text(s), c.p.src(s));
                }
                s.probe("writer_accounting");
                let _ = unordered;
            }
        }
    }
    Ok(true)
}

/// bits accepted by a writer which do not make up a byte yet
#[cfg(all(feature = "bits", feature = "alloc"))]
fn pending<W: deku::no_std_io::Write + deku::no_std_io::Seek>(w: &mut deku::writer::Writer<W>) -> u64 {
    w.rest().len() as u64
}
#[cfg(not(all(feature = "bits", feature = "alloc")))]
fn pending<W: deku::no_std_io::Write + deku::no_std_io::Seek>(_: &mut deku::writer::Writer<W>) -> u64 {
    0
}

/// hostile input
pub fn c_hostile(s: &mut Sim) -> Res {
    let budget = 2 + s.draw(12, "budget") as i64;
    let Some(p) = plan(s, &Want { filter: &any, max_msgs: 2, budget }) else { return Ok(false) };
    let mut data = p.data.clone();
    // several corruptions on top of each other
    for _ in 0..1 + s.draw(4, "corruptions") {
        corrupt(s, &mut data, 1);
    }
    if s.chance(1, 6, "long") {
        let n = s.draw(2000, "long.n");
        let b = s.draw(256, "long.byte") as u8;
        data.extend(std::iter::repeat(b).take(n as usize));
    }
    mix(s, &data);
    s.note(|| p.text(s));
    let z = p.zoo(s);
    let seeky = p.msgs.iter().any(|m| z.defs[m.di].seeky);
    let m = model_read(s, &p, &data, Tail::Eof);
    let mut st = stream(&s.w, "in", &data);
    st.policy = Policy::draw(&s.w);
    let mode = s.draw(3, "entry");
    let single = p.msgs.len() == 1 && z.defs[p.msgs[0].di].top;
    let base = crate::alloc::reset();
    let t = format!("{}\ninput {}\n{}", p.text(s), hex(&data), "");
    let base2 = crate::alloc::reset();
    let _ = base;
    if mode == 1 && single {
        let top = p.ops(s, 0).top.as_ref().unwrap();
        let _ = safely("from_bytes", || (top.from_bytes)(&data, 0).is_ok()).map_err(|b| Bad { detail: format!("{}\n{t}{}", b.detail, p.src(s)), ..b })?;
    } else {
        let r = if mode == 2 && !seeky {
            st.seekable = false;
            safely("read", || real_read(s, &p, &mut Ns(deku::noseek::NoSeek::new(&mut st))))
        } else {
            safely("read", || real_read(s, &p, &mut st))
        };
        let r = r.map_err(|b| Bad { detail: format!("{}\n{t}{}", b.detail, p.src(s)), ..b })?;
        // where the format is decided, so is the outcome
        if let Some(m) = &m {
            if r != m.got {
                fail!(diff_class(&r, &m.got), "got {r:?}, the format says {:?}\n{t}{}", m.got, p.src(s));
            }
            s.probe("decided");
        } else {
            s.probe("undecided");
        }
    }
    let (peak, big) = crate::alloc::peak();
    let used = (peak - base2).max(0) as u64;
    let allowed = MEM_BASE + MEM_PER_BYTE * data.len() as u64;
    if used > allowed {
        fail!("memory not bounded by the input", "{used} bytes were allocated at once (largest request {big}) for {} bytes of input, allowed {allowed}\n{t}{}", data.len(), p.src(s));
    }
    // an endless retry is not progress
    let reads = st.reads;
    let lim = 400 + 40 * data.len() as u64;
    if reads > lim {
        fail!("no progress", "{reads} read calls for {} bytes of input\n{t}{}", data.len(), p.src(s));
    }
    Ok(true)
}
/// a container may reserve up to 64 KiB ahead of its elements, nested ones each
pub const MEM_BASE: u64 = 1 << 20;
pub const MEM_PER_BYTE: u64 = 4096;

/// enum dispatch
pub fn c_enum(s: &mut Sim) -> Res {
    let f = |d: &Def| d.has_enum;
    let Some(c) = case(s, &f, 2, 3) else { return Ok(false) };
    deliver(s, &c)?;
    let z = c.p.zoo(s);
    // the id of every decoded enum value
    for (i, m) in c.p.msgs.iter().enumerate() {
        let Body::Enum { id_ty: Some(t), variants, .. } = &z.defs[m.di].body else { continue };
        let Some(Ok(v @ Val::E(k, fs))) = c.m.got.vals.get(i) else { continue };
        let Some(idf) = c.p.ops(s, i).id else { continue };
        let got = safely("deku_id", || idf(v))?.map_err(|e| dcore::support::errc(&e));
        let num = |k: i128| match t {
            Ty::Int { s: true, .. } => Val::I(k),
            Ty::Bool => Val::B(k != 0),
            Ty::Def(_) => Val::E(k as usize, vec![]),
            _ => Val::U(k as u128),
        };
        let want = match &variants[*k].id {
            VarId::Int(x) => Ok(num(*x)),
            // a variant with only a discriminant is documented (and tested) to have no id
            VarId::Disc(x) if got.is_ok() => Ok(num(*x)),
            VarId::Bytes(b) => Ok(Val::L(b.iter().map(|x| Val::U(*x as u128)).collect())),
            _ => Err(ErrC::IdNotFound),
        };
        if got != want {
            fail!("wrong id", "deku_id of {v:?} is {got:?}, expected {want:?}\n{}\n{}", c.p.text(s), c.p.src(s));
        }
        s.probe(match &variants[*k].id {
            VarId::Int(_) if variants[*k].default => "default_variant",
            VarId::Int(_) => "id",
            VarId::Disc(_) => "discriminant",
            VarId::Bytes(_) => "byte_string_id",
            VarId::Wild => "wildcard",
            _ => "id_pat",
        });
        let _ = fs;
    }
    // and back: the id is written as it was declared
    if c.m.got.vals.iter().all(|v| v.is_ok()) {
        let vals: Vec<Val> = c.m.got.vals.iter().map(|v| v.clone().unwrap()).collect();
        crate::p_write::write_matches(s, &c.p, &vals)?;
    }
    Ok(true)
}

/// containers
pub fn c_container(s: &mut Sim) -> Res {
    let f = |d: &Def| d.has_limit;
    let Some(c) = case_or_over(s, &f, 2, 3)? else { return Ok(false) };
    deliver(s, &c)?;
    if c.m.got.vals.iter().all(|v| v.is_ok()) {
        let vals: Vec<Val> = c.m.got.vals.iter().map(|v| v.clone().unwrap()).collect();
        crate::p_write::write_matches(s, &c.p, &vals)?;
    }
    Ok(true)
}

/// magic, assert, map
pub fn gated(d: &Def) -> bool {
    d.has_gate
}
pub fn c_gates(s: &mut Sim) -> Res {
    let Some(c) = case(s, &gated, 2, 2) else { return Ok(false) };
    deliver(s, &c)?;
    // a rejected message leaves nothing behind: the next session is not affected
    match c.m.got.vals.last() {
        Some(Err(ErrC::Parse | ErrC::Assertion)) => {
            s.probe("rejected");
            let mut st = stream(&s.w, "in", &c.data);
            st.policy = Policy::draw(&s.w);
            let real = safely("read", || real_read(s, &c.p, &mut st))?;
            same(s, &c, "second session", &real, &c.data)?;
            if !c.p.zoo(s).defs[c.p.msgs[0].di].seeky && st.delivered > c.m.touched {
                fail!("read past a rejected field", "{} bytes taken, the rejected field ends after {}\n{}\n{}", st.delivered, c.m.touched, c.p.text(s), c.p.src(s));
            }
        }
        Some(Ok(_)) => {
            // values that violate an assertion are not written
            let vals: Vec<Val> = c.m.got.vals.iter().map(|v| v.clone().unwrap()).collect();
            let mut vals = vals;
            let k = s.draw(vals.len() as u64, "which") as usize;
            let n = s.draw(3, "tweaks");
            let z = c.p.zoo(s);
            for _ in 0..n {
                vals[k] = crate::p_write::tweak(s, z, c.p.msgs[k].di, &vals[k]);
            }
            crate::p_write::write_matches(s, &c.p, &vals)?;
        }
        _ => {}
    }
    Ok(true)
}

/// seek attributes
pub fn c_seek(s: &mut Sim) -> Res {
    let f = |d: &Def| d.seeky;
    let Some(c) = case(s, &f, 1, 4) else { return Ok(false) };
    let z = c.p.zoo(s);
    let x = c.p.msgs[0];
    let t = |s: &Sim| format!("{}\ninput {}\n{}", c.p.text(s), hex(&c.data), c.p.src(s));
    match s.draw(4, "mode") {
        0 => deliver(s, &c)?,
        1 => {
            // the stream refuses to seek
            let k = s.kind();
            let mut m = Dec::bytes(z, &c.data, Tail::Eof);
            m.seek_err = Some(format!("{k:?}"));
            let want = m.def(x.di, &x.leaf, Some(x.n));
            if want == Err(ErrC::Limit) {
                return Ok(false);
            }
            let mut st = stream(&s.w, "in", &c.data);
            st.policy = Policy::draw(&s.w);
            st.seek_err = Some(k);
            let real = safely("read with failing seeks", || real_read(s, &c.p, &mut st))?;
            if real.vals[0] != want {
                let cl = if real.vals[0].is_ok() { "value after a failed seek" } else { "wrong kind of error" };
                fail!(cl, "seeks fail with {k:?}: got {:?}, expected {want:?}\n{}", real.vals[0], t(s));
            }
            s.probe("seek_refused");
        }
        2 => {
            // NoSeek refuses everything but staying in place
            let mut m = Dec::bytes(z, &c.data, Tail::Eof);
            m.noseek = true;
            let want = m.def(x.di, &x.leaf, Some(x.n));
            if want == Err(ErrC::Limit) {
                return Ok(false);
            }
            let mut st = stream(&s.w, "in", &c.data);
            st.policy = Policy::draw(&s.w);
            st.seekable = false;
            let real = safely("read through NoSeek", || real_read(s, &c.p, &mut Ns(deku::noseek::NoSeek::new(&mut st))))?;
            if real.vals[0] != want {
                let cl = if real.vals[0].is_ok() { "value after a failed seek" } else { "wrong kind of error" };
                fail!(cl, "through NoSeek: got {:?}, expected {want:?}\n{}", real.vals[0], t(s));
            }
            s.probe("noseek");
        }
        _ => {
            // and on the way out
            let Some(Ok(v)) = c.m.got.vals.first() else { return Ok(false) };
            let mut v = v.clone();
            if s.chance(1, 3, "tweak") {
                v = crate::p_write::tweak(s, z, x.di, &v);
            }
            let old: Vec<u8> = (0..s.draw(12, "old")).map(|_| s.draw(256, "byte") as u8).collect();
            let fail_seek = s.chance(1, 4, "seek.fail");
            let k = s.kind();
            let mut e = Enc::new(z);
            e.out = old.clone();
            if fail_seek {
                e.seek_err = Some(format!("{k:?}"));
            }
            let want = e.def(x.di, &v, &x.leaf, Some(x.n));
            e.finalize();
            let mut st = stream(&s.w, "out", &old);
            st.policy = Policy::draw(&s.w);
            if fail_seek {
                st.seek_err = Some(k);
            }
            let put = safely("write", || real_write(&s.zoos[c.p.zi].1, &c.p.msgs, &[v.clone()], &mut st))?;
            if put.res != want {
                fail!(if put.res.is_ok() { "wrote after a failed seek" } else { "wrong kind of error" }, "write over {} (seek fails: {fail_seek}): got {:?}, expected {want:?}\nvalue {v:?}\n{}", hex(&old), put.res, t(s));
            }
            if want.is_ok() && st.data != e.out {
                fail!("wrong bytes", "write over {}: got {}, expected {}\nvalue {v:?}\n{}", hex(&old), hex(&st.data), hex(&e.out), t(s));
            }
            s.probe(if fail_seek { "write_seek_refused" } else { "seek_write" });
        }
    }
    Ok(true)
}

/// drop balance
pub fn c_drops(s: &mut Sim) -> Res {
    use dcore::support::h;
    let tracked_only = s.chance(3, 4, "tracked");
    let f = move |d: &Def| !tracked_only || d.tracked;
    let Some(c) = case(s, &f, 2, 4) else { return Ok(false) };
    let z = c.p.zoo(s);
    let total = c.m.tracked;
    let mode = s.draw(4, "mode");
    let panic_at = if mode == 1 && total > 0 { s.draw(total, "panic.at") } else { u64::MAX };
    let mut st = stream(&s.w, "in", &c.data);
    st.policy = Policy::draw(&s.w);
    match mode {
        2 => {
            st.err = Some(At { off: s.draw(c.m.touched + 1, "fault.at"), kind: s.kind(), times: u32::MAX });
        }
        3 => {
            st.panic_at = Some(s.draw(c.m.touched + 1, "panic.byte"));
        }
        _ => {}
    }
    let t = |s: &Sim| format!("{}\ninput {}\n{}", c.p.text(s), hex(&c.data), c.p.src(s));
    let before_sized = crate::alloc::live();
    let _ = before_sized;
    h::tracked_reset(panic_at);
    let unwinding = panic_at != u64::MAX || st.panic_at.is_some();
    let r = guard(|| {
        let live0 = crate::alloc::live();
        let g = real_read(s, &c.p, &mut st);
        drop(g);
        live0
    });
    let (made, dropped) = h::tracked_counts();
    h::tracked_reset(u64::MAX);
    match &r {
        Err(m) if m == "injected" && unwinding => {
            s.fault(Fault::injected_panic);
            s.probe("unwound");
        }
        Err(m) => fail!("panic", "{m}\n{}", t(s)),
        Ok(_) => {}
    }
    if made != dropped {
        fail!("unbalanced drops", "{made} values were created, {dropped} dropped ({})\n{}", if r.is_err() { "after unwinding" } else { "no panic" }, t(s));
    }
    if r.is_ok() && mode == 0 && made < total {
        fail!("elements lost", "{made} elements created, the message has {total}\n{}", t(s));
    }
    // memory: what a session allocates is freed with its results, also when it fails
    let mut st2 = stream(&s.w, "in", &c.data);
    st2.err = st.err.clone();
    st2.panic_at = st.panic_at;
    st2.trace = false;
    h::tracked_reset(panic_at);
    let keep = {
        let mut w = s.w.borrow_mut();
        let t = w.tape.as_mut().unwrap();
        t.rec.reserve(4096);
        t.labels.reserve(4096);
        std::mem::replace(&mut w.keep, false)
    };
    let live0 = crate::alloc::live();
    let r2 = guard(|| {
        let mut rd = deku::reader::Reader::new(Io(&mut st2));
        for (i, m) in c.p.msgs.iter().enumerate() {
            let r = (c.p.ops(s, i).read)(&mut rd, m.ctx());
            if r.is_err() {
                break;
            }
        }
    })
    .is_err();
    let live1 = crate::alloc::live();
    s.w.borrow_mut().keep = keep;
    h::tracked_reset(u64::MAX);
    if live1 != live0 && !r2 {
        fail!("memory leaked", "{} bytes still allocated after a session that {}\n{}", live1 - live0, if r.is_ok() { "ended" } else { "failed" }, t(s));
    }
    let _ = z;
    Ok(total > 0 || !tracked_only)
}
