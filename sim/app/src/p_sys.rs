//! Scenarios with several parties, crashes, and the bit-level machinery alone.

use crate::fail;
use crate::p_read::{any, case, diff_class, mix};
use crate::p_write::{seeky, unordered, wvals};
use crate::sched::*;
use crate::sim::*;
use dcore::io::*;
use dcore::model::*;
use dcore::support::*;
use deku::no_std_io::{ErrorKind, Read, Seek as _, SeekFrom, Write};
use deku::noseek::NoSeek;
use deku::reader::Reader;
use deku::writer::Writer;
use deku::DekuError;
use dgen::schema::*;
use std::sync::Arc;

type Task<T> = Box<dyn FnOnce(Arc<Sched>, usize) -> T + Send>;

fn policy(s: &Sim) -> Policy {
    let mut p = Policy::draw(&s.w);
    p.latency = 0;
    p
}

// ---------------------------------------------------------------- relay chain

struct Out {
    vals: Vec<Val>,
    end: Result<(), ErrC>,
    /// no bytes and no bits behind the last message
    clean: bool,
}

/// producer -> relay(s) -> consumer
pub fn c_relay(s: &mut Sim) -> Res {
    let f = |d: &Def| !d.seeky && !d.until_set;
    let budget = 2 + s.draw(10, "budget") as i64;
    let Some(p) = plan(s, &Want { filter: &f, max_msgs: 5, budget }) else { return Ok(false) };
    let Some((vals, wire)) = stable_vals(s, &p) else { return Ok(false) };
    s.note(|| p.text(s));
    mix(s, &wire);
    let z = p.zoo(s);
    let loose = unordered(s, &p);
    let relays = s.draw(3, "relays") as usize;
    let n = relays + 2;
    let sc = Sched::new(&s.w, n, policy(s));
    let mut pipes = vec![];
    for i in 0..n - 1 {
        let cap = 1 + s.draw(40, "pipe.cap") as usize;
        let lat = [0u64, 0, 100, 20_000][s.draw(4, "pipe.latency") as usize];
        pipes.push(sc.pipe(["first link", "second link", "third link"][i], cap, lat));
    }
    // the connection may break
    let fault = s.chance(1, 3, "reset");
    let (mut brk, mut kind) = (0, ErrorKind::ConnectionReset);
    let mut hit = 0;
    if fault {
        brk = s.draw(wire.len() as u64 + 1, "reset.after");
        kind = s.kind();
        hit = s.draw(pipes.len() as u64, "reset.link") as usize;
        sc.reset_after(pipes[hit], brk, kind);
    }
    // or the producer goes away in the middle
    let crash = !fault && s.chance(1, 5, "crash");
    let stop = if crash { s.draw(p.msgs.len() as u64, "crash.after") as usize } else { p.msgs.len() };
    let zoos = s.zoos;
    let zi = p.zi;
    let msgs = p.msgs.clone();
    let mut tasks: Vec<Task<Out>> = vec![];
    {
        let (msgs, vals, out) = (msgs.clone(), vals.clone(), pipes[0]);
        tasks.push(Box::new(move |sc, me| {
            let w = PipeW { s: sc, p: out, me };
            let mut ns = Ns(NoSeek::new(w));
            let ops = &zoos[zi].1;
            let mut wr = Writer::new(Io(&mut ns));
            for (i, m) in msgs.iter().enumerate().take(stop) {
                if let Err(e) = (ops[m.di].write)(&mut wr, &vals[i], m.ctx()) {
                    return Out { vals: vec![], end: Err(errc(&e)), clean: true };
                }
            }
            let end = if crash { Ok(()) } else { wr.finalize().map_err(|e| errc(&e)) };
            Out { vals: vec![], end, clean: true }
        }));
    }
    for k in 0..relays {
        let (msgs, a, b) = (msgs.clone(), pipes[k], pipes[k + 1]);
        tasks.push(Box::new(move |sc, me| {
            let r = PipeR { s: sc.clone(), p: a, me };
            let w = PipeW { s: sc, p: b, me };
            let mut rn = Ns(NoSeek::new(r));
            let mut wn = Ns(NoSeek::new(w));
            let ops = &zoos[zi].1;
            let mut rd = Reader::new(Io(&mut rn));
            let mut wr = Writer::new(Io(&mut wn));
            let mut vals = vec![];
            for m in msgs.iter() {
                match (ops[m.di].read)(&mut rd, m.ctx()) {
                    Ok(v) => {
                        if let Err(e) = (ops[m.di].write)(&mut wr, &v, m.ctx()) {
                            return Out { vals, end: Err(errc(&e)), clean: true };
                        }
                        vals.push(v);
                    }
                    Err(e) => return Out { vals, end: Err(errc(&e)), clean: true },
                }
            }
            let end = wr.finalize().map_err(|e| errc(&e));
            Out { vals, end, clean: true }
        }));
    }
    {
        let (msgs, a) = (msgs.clone(), pipes[n - 2]);
        tasks.push(Box::new(move |sc, me| {
            let r = PipeR { s: sc, p: a, me };
            let mut rn = Ns(NoSeek::new(r));
            let ops = &zoos[zi].1;
            let mut rd = Reader::new(Io(&mut rn));
            let mut vals = vec![];
            for m in msgs.iter() {
                match (ops[m.di].read)(&mut rd, m.ctx()) {
                    Ok(v) => vals.push(v),
                    Err(e) => return Out { vals, end: Err(errc(&e)), clean: true },
                }
            }
            let bits = rd.bits_read;
            // nothing may follow but the padding of the last byte
            let _ = bits;
            let clean = {
                let mut b = [0u8; 1];
                loop {
                    match rn.r(&mut b) {
                        Ok(n) => break n == 0,
                        Err(e) if e.kind() == ErrorKind::Interrupted => {}
                        Err(_) => break true,
                    }
                }
            };
            Out { vals, end: Ok(()), clean }
        }));
    }
    let r = sc.run(tasks);
    let t = |s: &Sim| format!("{relays} relays, wire {}\nsent {vals:?}\n{}\n{}", hex(&wire), p.text(s), p.src(s));
    for (i, x) in r.iter().enumerate() {
        if let Err(m) = x {
            let cl = if m.starts_with("deadlock") { "deadlock" } else { "panic" };
            fail!(cl, "party {i}: {m}\n{}", t(s));
        }
    }
    let r: Vec<Out> = r.into_iter().map(|x| x.unwrap()).collect();
    // what was received is a prefix of what was sent, in order
    for (i, o) in r.iter().enumerate().skip(1) {
        for (k, v) in o.vals.iter().enumerate() {
            // a format without a length cannot tell a peer that vanished from the end
            let open_end = z.defs[p.msgs[k].di].greedy && (crash || (fault && i > hit + 1));
            if *v != vals[k] && !open_end {
                fail!("received something that was not sent", "party {i}, message {k}: {v:?}, sent {:?}\n{}", vals[k], t(s));
            }
        }
    }
    let last = r.last().unwrap();
    if fault {
        s.probe("connection_lost");
        // a party behind the break either has everything or says why not
        for (i, o) in r.iter().enumerate().skip(1) {
            if o.vals.len() < vals.len() && o.end.is_ok() {
                fail!("messages lost silently", "party {i} has {} of {} messages and no error\n{}", o.vals.len(), vals.len(), t(s));
            }
        }
        // everything that fully crossed the broken link before the break is there
        let o = &r[hit + 1];
        let mut e = Enc::new(z);
        let mut done = 0;
        for (i, m) in p.msgs.iter().enumerate() {
            let _ = e.def(m.di, &vals[i], &m.leaf, Some(m.n));
            if !z.defs[m.di].greedy && e.bits.div_ceil(8) <= sc.delivered(pipes[hit]) {
                done = i + 1;
            }
        }
        if o.vals.len() < done && r[..=hit].iter().all(|x| x.end.is_ok() || matches!(x.end, Err(ErrC::Io(_)))) {
            fail!("delivered messages lost", "{} bytes ({done} messages) arrived before the break, {} were decoded: {:?}\n{}", sc.delivered(pipes[hit]), o.vals.len(), o.end, t(s));
        }
        if sc.broke(pipes[hit]) && o.vals.len() < vals.len() {
            match &o.end {
                Err(ErrC::Io(k)) if *k == format!("{kind:?}") || *k == "BrokenPipe" => {}
                // the peer may have gone first
                Err(ErrC::Incomplete) if hit > 0 && r[hit].end.is_err() => {}
                other => fail!("I/O error lost", "the link broke with {kind:?} after {brk} bytes, the reader got {other:?}\n{}", t(s)),
            }
        }
        return Ok(true);
    }
    if crash {
        s.fault(Fault::crash);
        s.probe("producer_gone");
        let greedy = p.msgs.iter().any(|m| z.defs[m.di].greedy);
        let mut ends = vec![];
        let mut e = Enc::new(z);
        for (i, m) in p.msgs.iter().enumerate() {
            let _ = e.def(m.di, &vals[i], &m.leaf, Some(m.n));
            ends.push(e.bits);
        }
        // a party that gives up does not flush the bits of an unfinished byte
        let mut sure = stop;
        for (i, o) in r.iter().enumerate().skip(1) {
            let whole = if sure == 0 { 0 } else { ends[sure - 1] / 8 * 8 };
            sure = ends.iter().take(sure).filter(|e| **e <= whole).count();
            if !greedy && o.vals.len() < sure {
                fail!("delivered messages lost", "party {i} decoded {} of the {sure} messages that arrived before the crash: {:?}\n{}", o.vals.len(), o.end, t(s));
            }
            if o.vals.len() < p.msgs.len() && o.end.is_ok() {
                fail!("messages lost silently", "party {i} has {} of {} messages and no error\n{}", o.vals.len(), vals.len(), t(s));
            }
        }
        return Ok(true);
    }
    for (i, o) in r.iter().enumerate() {
        if let Err(e) = &o.end {
            fail!("valid traffic rejected", "party {i} after {} messages: {e:?}\n{}", o.vals.len(), t(s));
        }
        if i > 0 && o.vals.len() != vals.len() {
            fail!("messages lost silently", "party {i} has {} of {} messages\n{}", o.vals.len(), vals.len(), t(s));
        }
    }
    if !last.clean {
        fail!("bytes behind the last message", "{}", t(s));
    }
    for (i, l) in pipes.iter().enumerate() {
        let b = sc.sent(*l);
        if b.len() != wire.len() || (!loose && b != wire) {
            fail!("bytes changed on the way", "link {i} carried {}\n{}", hex(&b), t(s));
        }
    }
    s.probe("relayed");
    s.w.borrow_mut().mix(sc.switches());
    Ok(true)
}

// ---------------------------------------------------------------- request / response

/// one message, alone on the wire
fn single(s: &mut Sim, zi: usize) -> Option<(M, Val, Vec<u8>)> {
    let f = |d: &Def| !d.seeky && !d.greedy && !d.until_set;
    let p = plan_in(s, zi, &Want { filter: &f, max_msgs: 1, budget: 6 })?;
    let (v, w) = stable_vals(s, &p)?;
    if w.is_empty() {
        return None;
    }
    Some((p.msgs[0], v[0].clone(), w))
}

pub fn c_rpc(s: &mut Sim) -> Res {
    if s.chance(1, 2, "direct") {
        return crate::p_read::c_framing_direct(s);
    }
    let zi = s.draw(s.zoos.len() as u64, "zoo") as usize;
    let rounds = 1 + s.draw(4, "rounds") as usize;
    let mut req = vec![];
    let mut rsp = vec![];
    for _ in 0..rounds {
        let Some(a) = single(s, zi) else { return Ok(false) };
        let Some(b) = single(s, zi) else { return Ok(false) };
        mix(s, &a.2);
        mix(s, &b.2);
        req.push(a);
        rsp.push(b);
    }
    s.note(|| format!("requests {req:?}, responses {rsp:?}"));
    let sc = Sched::new(&s.w, 2, policy(s));
    let cap = 1 + s.draw(30, "pipe.cap") as usize;
    let lat = [0u64, 0, 100, 20_000][s.draw(4, "pipe.latency") as usize];
    let up = sc.pipe("requests", cap, lat);
    let down = sc.pipe("responses", cap, lat);
    let zoos = s.zoos;
    let mk = |first: bool, send: Vec<(M, Val, Vec<u8>)>, recv: Vec<(M, Val, Vec<u8>)>, o: usize, i: usize| -> Task<Result<Vec<Val>, String>> {
        Box::new(move |sc, me| {
            let ops = &zoos[zi].1;
            let mut rn = Ns(NoSeek::new(PipeR { s: sc.clone(), p: i, me }));
            let mut wn = Ns(NoSeek::new(PipeW { s: sc, p: o, me }));
            let mut got = vec![];
            for k in 0..send.len() {
                for half in 0..2 {
                    if (half == 0) == first {
                        let (m, v, _) = &send[k];
                        let mut wr = Writer::new(Io(&mut wn));
                        (ops[m.di].write)(&mut wr, v, m.ctx()).map_err(|e| format!("write {k}: {e:?}"))?;
                        wr.finalize().map_err(|e| format!("finalize {k}: {e:?}"))?;
                    } else {
                        let (m, _, _) = &recv[k];
                        let mut rd = Reader::new(Io(&mut rn));
                        got.push((ops[m.di].read)(&mut rd, m.ctx()).map_err(|e| format!("read {k}: {e:?}"))?);
                    }
                }
            }
            Ok(got)
        })
    };
    let tasks = vec![mk(true, req.clone(), rsp.clone(), up, down), mk(false, rsp.clone(), req.clone(), down, up)];
    let r = sc.run(tasks);
    let z = &s.zoos[zi].0;
    let t = || {
        let mut o = String::new();
        for (m, v, w) in req.iter().chain(&rsp) {
            o += &format!("T{} ctx({:?},{:?},{}) {v:?} = {}\n{}", m.di, m.leaf.en, m.leaf.or, m.n, hex(w), dgen::emit::def(z, &z.defs[m.di]).split("impl ToVal").next().unwrap());
        }
        o
    };
    for (i, x) in r.iter().enumerate() {
        match x {
            Err(m) if m.starts_with("deadlock") => {
                fail!("waits for more than the message", "both parties wait: party {i} asks for input although its message has arrived completely\n{}", t())
            }
            Err(m) => fail!("panic", "party {i}: {m}\n{}", t()),
            Ok(Err(e)) => fail!("valid traffic rejected", "party {i}: {e}\n{}", t()),
            Ok(Ok(got)) => {
                let want = if i == 0 { &rsp } else { &req };
                for (k, v) in got.iter().enumerate() {
                    if *v != want[k].1 {
                        fail!("received something that was not sent", "party {i}, message {k}: {v:?}, sent {:?}\n{}", want[k].1, t());
                    }
                }
            }
        }
    }
    s.probe("conversation");
    s.w.borrow_mut().mix(sc.switches());
    Ok(true)
}

// ---------------------------------------------------------------- isolation

/// interleaved sessions do not influence each other
pub fn c_isolation(s: &mut Sim) -> Res {
    let n = 2 + s.draw(3, "sessions") as usize;
    struct Sess {
        p: Plan,
        data: Vec<u8>,
        want: Option<Got>,
        vals: Vec<Val>,
        out: (Put, Vec<u8>),
        policy: Policy,
        err: Option<At>,
        clean: Got,
    }
    let mut ss = vec![];
    let same = s.chance(1, 2, "same.type");
    let mut zi = 0;
    let mut di = None;
    for k in 0..n {
        let budget = 2 + s.draw(6, "budget") as i64;
        let f = move |d: &Def| di.is_none_or(|x| x == d.idx);
        let p = if k == 0 || !same {
            plan(s, &Want { filter: &any, max_msgs: 2, budget })
        } else {
            plan_in(s, zi, &Want { filter: &f, max_msgs: 2, budget })
        };
        let Some(p) = p else { continue };
        if k == 0 && same {
            zi = p.zi;
            di = Some(p.msgs[0].di);
        }
        let mut data = p.data.clone();
        corrupt(s, &mut data, 3);
        let pol = policy(s);
        if s.chance(1, 2, "writes") {
            let Some((v, o)) = stable_vals(s, &p) else { continue };
            if unordered(s, &p) || seeky(s, &p) {
                continue;
            }
            let (put, _, _) = model_write(p.zoo(s), &p.msgs, &v);
            mix(s, &o);
            ss.push(Sess { p, data, want: None, vals: v, out: (put, o), policy: pol, err: None, clean: Got { vals: vec![], bits: vec![] } });
        } else {
            let Some(m) = model_read(s, &p, &data, Tail::Eof) else { continue };
            let mut want = m.got.clone();
            let clean = m.got;
            let mut err = None;
            if s.chance(1, 4, "fault") && !seeky(s, &p) {
                let off = s.draw(data.len() as u64 + 1, "fault.at");
                let k = s.kind();
                let Some(m) = model_read(s, &p, &data[..off as usize], Tail::Err(format!("{k:?}"))) else { continue };
                want = m.got;
                err = Some(At { off, kind: k, times: u32::MAX });
            }
            mix(s, &data);
            ss.push(Sess { p, data, want: Some(want), vals: vec![], out: (Put { res: Ok(()), at: 0, bits: 0 }, vec![]), policy: pol, err, clean });
        }
    }
    if ss.len() < 2 {
        return Ok(false);
    }
    s.note(|| ss.iter().map(|x| format!("[{} {}] ", if x.want.is_some() { "reads" } else { "writes" }, x.p.text(s))).collect());
    let nested = s.chance(1, 3, "nested");
    let t = |s: &Sim, i: usize| format!("session {i} of {} ({})\n{}\n{}", ss.len(), if nested { "nested" } else { "interleaved" }, ss[i].p.text(s), ss[i].p.src(s));
    enum R {
        Got(Got),
        Put(Put, Vec<u8>),
    }
    let one = |zoos: &'static Zoos, p: &Plan, vals: &[Val], read: bool, io: &mut dyn Rws| -> (Option<Got>, Option<Put>) {
        if read {
            let mut g = Got { vals: vec![], bits: vec![] };
            let mut rd = Reader::new(Io(io));
            for m in &p.msgs {
                let r = (zoos[p.zi].1[m.di].read)(&mut rd, m.ctx());
                let stop = r.is_err();
                g.vals.push(r.map_err(|e| errc(&e)));
                if stop {
                    break;
                }
                g.bits.push(rd.bits_read as u64);
            }
            (Some(g), None)
        } else {
            (None, Some(real_write(&zoos[p.zi].1, &p.msgs, vals, io)))
        }
    };
    let mut results: Vec<Result<R, String>> = vec![];
    let zoos = s.zoos;
    if nested {
        // session 1 runs in the middle of an I/O call of session 0, and so on
        struct Nest<'a> {
            st: Stream,
            at: u64,
            ops: u64,
            inner: Option<Box<dyn FnMut() + 'a>>,
        }
        impl Nest<'_> {
            fn tick(&mut self) {
                if self.ops == self.at {
                    if let Some(mut f) = self.inner.take() {
                        f()
                    }
                }
                self.ops += 1;
            }
        }
        impl Rws for Nest<'_> {
            fn r(&mut self, b: &mut [u8]) -> deku::no_std_io::Result<usize> {
                self.tick();
                self.st.read(b)
            }
            fn wr(&mut self, b: &[u8]) -> deku::no_std_io::Result<usize> {
                self.tick();
                self.st.write(b)
            }
            fn fl(&mut self) -> deku::no_std_io::Result<()> {
                self.st.flush()
            }
            fn sk(&mut self, p: SeekFrom) -> deku::no_std_io::Result<u64> {
                self.tick();
                self.st.seek(p)
            }
        }
        let ats: Vec<u64> = ss.iter().map(|_| s.draw(6, "nest.at")).collect();
        fn go(
            w: &Wd,
            ss: &[Sess],
            i: usize,
            ats: &[u64],
            out: &std::cell::RefCell<Vec<Option<R>>>,
            one: &dyn Fn(&Plan, &[Val], bool, &mut dyn Rws) -> (Option<Got>, Option<Put>),
        ) {
            let x = &ss[i];
            let read = x.want.is_some();
            let mut st = stream(w, "nested", if read { &x.data } else { &[] });
            st.policy = x.policy.clone();
            st.err = x.err.clone();
            let mut ns = Nest { st, at: ats[i], ops: 0, inner: None };
            if i + 1 < ss.len() {
                ns.inner = Some(Box::new(move || go(w, ss, i + 1, ats, out, one)));
            }
            let (g, p) = one(&x.p, &x.vals, read, &mut ns);
            out.borrow_mut()[i] = Some(match (g, p) {
                (Some(g), _) => R::Got(g),
                (_, Some(p)) => R::Put(p, std::mem::take(&mut ns.st.data)),
                _ => unreachable!(),
            });
        }
        let out = std::cell::RefCell::new((0..ss.len()).map(|_| None).collect::<Vec<Option<R>>>());
        let f = |p: &Plan, v: &[Val], r: bool, io: &mut dyn Rws| one(zoos, p, v, r, io);
        let g = guard(|| go(&s.w, &ss, 0, &ats, &out, &f));
        if let Err(m) = g {
            fail!("panic", "{m}\n{}", t(s, 0));
        }
        for r in out.into_inner() {
            match r {
                Some(r) => results.push(Ok(r)),
                None => results.push(Err("not run".into())),
            }
        }
        s.probe("nested");
    } else {
        let sc = Sched::new(&s.w, ss.len(), Policy::calm());
        let mut tasks: Vec<Task<R>> = vec![];
        for x in &ss {
            let (w, data, pol, err, p, vals, read) = (s.w.clone(), x.data.clone(), x.policy.clone(), x.err.clone(), x.p.clone(), x.vals.clone(), x.want.is_some());
            tasks.push(Box::new(move |sc, me| {
                let mut st = stream(&w, ["session 0", "session 1", "session 2", "session 3"][me], if read { &data } else { &[] });
                st.policy = pol;
                st.err = err;
                let mut sh = Shared { st, s: sc, me };
                if read {
                    let mut g = Got { vals: vec![], bits: vec![] };
                    let mut rd = Reader::new(Io(&mut sh));
                    for m in &p.msgs {
                        let r = (zoos[p.zi].1[m.di].read)(&mut rd, m.ctx());
                        let stop = r.is_err();
                        g.vals.push(r.map_err(|e| errc(&e)));
                        if stop {
                            break;
                        }
                        g.bits.push(rd.bits_read as u64);
                    }
                    R::Got(g)
                } else {
                    let put = real_write(&zoos[p.zi].1, &p.msgs, &vals, &mut sh);
                    R::Put(put, std::mem::take(&mut sh.st.data))
                }
            }));
        }
        results = sc.run(tasks);
        s.probe("interleaved");
        s.w.borrow_mut().mix(sc.switches());
    }
    for (i, r) in results.iter().enumerate() {
        match r {
            Err(m) if m == "not run" => {}
            Err(m) => fail!("panic", "{m}\n{}", t(s, i)),
            Ok(R::Got(g)) => {
                let want = ss[i].want.as_ref().unwrap();
                if !want.accepts(g, &ss[i].clean) {
                    fail!(diff_class(g, want), "next to other sessions: got {g:?}, alone {want:?}\ninput {}\n{}", hex(&ss[i].data), t(s, i));
                }
            }
            Ok(R::Put(p, b)) => {
                let (wp, wb) = &ss[i].out;
                if p != wp || b != wb {
                    fail!("wrong bytes", "next to other sessions: {p:?} {}, alone {wp:?} {}\nvalues {:?}\n{}", hex(b), hex(wb), ss[i].vals, t(s, i));
                }
            }
        }
    }
    Ok(true)
}

// ---------------------------------------------------------------- crash recovery

/// An append-only log on a simulated disk: what was synced survives a crash,
/// what was not survives as an arbitrary prefix.
pub fn c_log(s: &mut Sim) -> Res {
    let zi = s.draw(s.zoos.len() as u64, "zoo") as usize;
    let z = &s.zoos[zi].0;
    let ops = &s.zoos[zi].1;
    // one record type per log, or any
    let c: Vec<usize> = z.defs.iter().filter(|d| !d.seeky && !d.greedy && d.top && !d.has_off && !matches!(d.ctx, CtxK::NDefault(_))).map(|d| d.idx).collect();
    if c.is_empty() {
        return Ok(false);
    }
    let di = c[s.draw(c.len() as u64, "type") as usize];
    let m = M { di, leaf: root_leaf(), n: 0 };
    let f = move |d: &Def| d.idx == di;
    let mut disk: Vec<u8> = vec![];
    let mut synced = 0usize;
    // records in the log, with the offset behind each
    let mut recs: Vec<(Val, usize)> = vec![];
    let src = dgen::emit::def(z, &z.defs[di]).split("impl ToVal").next().unwrap().to_string();
    let mut crashes = 0;
    let mut torn = 0;
    for _ in 0..2 + s.draw(3, "epochs") {
        // append
        for _ in 0..s.draw(5, "appends") {
            let Some(p) = plan_in(s, zi, &Want { filter: &f, max_msgs: 1, budget: 4 }) else { return Ok(false) };
            let px = Plan { msgs: vec![m], ..p };
            let Some((v, w)) = stable_vals(s, &px) else { continue };
            if w.is_empty() {
                continue;
            }
            mix(s, &w);
            let mut st = stream(&s.w, "log", &disk);
            st.policy = Policy::draw(&s.w);
            st.pos = disk.len() as u64;
            let full = s.chance(1, 8, "disk.full");
            if full {
                st.cap = Some(disk.len() as u64 + s.draw(w.len() as u64, "disk.room"));
                st.full_kind = ErrorKind::Other;
            }
            let put = safely("append", || {
                let mut wr = Writer::new(Io(&mut st));
                (ops[di].write)(&mut wr, &v[0], m.ctx())?;
                wr.finalize()
            })?;
            if full {
                if put.is_ok() {
                    fail!("success although bytes were lost", "append on a full disk succeeds\n{src}");
                }
                // the partial record is cut off again
                s.note(|| "append failed: truncate".into());
                continue;
            }
            if let Err(e) = put {
                fail!("refused a valid value", "append: {e:?}\n{v:?}\n{src}");
            }
            let before = disk.len();
            disk = std::mem::take(&mut st.data);
            if z.defs[di].unordered {
                // the order of the entries of a map is not determined: keep the one the model has
                if disk.len() != before + w.len() {
                    fail!("wrote something else", "{} bytes, expected {}\n{v:?}\n{src}", disk.len() - before, hex(&w));
                }
                disk.truncate(before);
                disk.extend_from_slice(&w);
            }
            recs.push((v[0].clone(), disk.len()));
            if s.chance(1, 2, "sync") {
                synced = disk.len();
                s.note(|| format!("sync: {synced} bytes durable"));
            }
        }
        // crash: the unsynced tail survives up to an arbitrary byte
        if s.chance(3, 4, "crash") {
            s.fault(Fault::crash);
            crashes += 1;
            let tail = disk.len() - synced;
            let keep = s.draw(tail as u64 + 1, "crash.keep") as usize;
            if keep < tail {
                s.fault(if recs.iter().any(|r| r.1 == synced + keep) || keep == 0 { Fault::lost_write } else { Fault::torn_write });
            }
            disk.truncate(synced + keep);
            s.note(|| format!("crash: {} of {} unsynced bytes survive", keep, tail));
        } else {
            synced = disk.len();
        }
        // recover
        let mut st = stream(&s.w, "log", &disk);
        st.policy = Policy::draw(&s.w);
        if s.chance(1, 4, "recovery.fault") {
            st.err = Some(At { off: s.draw(disk.len() as u64 + 1, "fault.at"), kind: s.kind(), times: 1 });
        }
        let entry = s.draw(2, "entry");
        let mut got: Vec<Val> = vec![];
        let mut at = 0u64;
        let mut guard_n = 0;
        loop {
            guard_n += 1;
            if guard_n > 200 {
                fail!("no progress", "recovery does not end\n{src}");
            }
            let before = st.errors;
            let r = if entry == 0 {
                st.pos = 0;
                safely("recovery", || (ops[di].top.as_ref().unwrap().from_reader)(&mut Io(&mut st), at as usize * 8))?
            } else {
                st.pos = at;
                safely("recovery", || {
                    let mut rd = Reader::new(Io(&mut st));
                    let v = (ops[di].read)(&mut rd, m.ctx())?;
                    Ok((rd.bits_read + at as usize * 8, v))
                })?
            };
            match r {
                Ok((bits, v)) => {
                    got.push(v);
                    at = (bits as u64).div_ceil(8);
                }
                Err(DekuError::Incomplete(_)) => break,
                Err(DekuError::Io(_)) if st.errors > before => {
                    s.probe("recovery_retried");
                    continue;
                }
                Err(e) => fail!("recovery stopped early", "record {}: {e:?} at byte {at} of {}\nlog {}\n{src}", got.len(), disk.len(), hex(&disk)),
            }
        }
        // a record is there iff its bytes are: computed from the format, not from lengths alone,
        // because a record may be complete before its padding
        let mut want: Vec<Val> = vec![];
        let mut off = 0usize;
        loop {
            let mut md = Dec::bytes(z, &disk[off..], Tail::Eof);
            match md.def(di, &m.leaf, None) {
                Ok(v) => {
                    want.push(v);
                    off += md.bits.div_ceil(8) as usize;
                    if off > disk.len() || want.len() > 100 {
                        return Ok(false);
                    }
                }
                Err(ErrC::Limit) => return Ok(false),
                Err(_) => break,
            }
        }
        let durable = recs.iter().filter(|r| r.1 <= synced).count();
        if got.len() < durable {
            fail!("durable record lost", "{} records recovered, {durable} were synced\nlog {}\n{src}", got.len(), hex(&disk));
        }
        for (i, v) in got.iter().enumerate() {
            if i >= recs.len() || *v != recs[i].0 {
                fail!("recovered something that was not written", "record {i}: {v:?}, written {:?}\nlog {}\n{src}", recs.get(i), hex(&disk));
            }
        }
        if got != want || at as usize != off {
            fail!("recovery stopped at the wrong record", "{} records up to byte {at}, the log has {} up to byte {off}\nlog {}\n{src}", got.len(), want.len(), hex(&disk));
        }
        if (at as usize) < disk.len() {
            torn += 1;
        }
        recs.truncate(got.len());
        disk.truncate(at as usize);
        synced = disk.len();
        for r in &mut recs {
            r.1 = r.1.min(synced);
        }
        s.probe("recovered");
    }
    if torn > 0 {
        s.probe("torn_tail_cut");
    }
    Ok(crashes > 0 && !recs.is_empty())
}

// ---------------------------------------------------------------- NoSeek alone

pub fn c_noseek(s: &mut Sim) -> Res {
    if s.chance(1, 2, "messages") {
        return noseek_messages(s);
    }
    let n = s.draw(60, "len");
    let data: Vec<u8> = (0..n).map(|_| s.draw(256, "byte") as u8).collect();
    mix(s, &data);
    let mut st = stream(&s.w, "raw", &data);
    st.policy = Policy::draw(&s.w);
    if s.chance(1, 3, "fault") {
        st.err = Some(At { off: s.draw(n + 4, "fault.at"), kind: s.kind(), times: 1 + s.draw(2, "times") as u32 });
    }
    if s.chance(1, 3, "cap") {
        st.cap = Some(s.draw(n + 30, "cap.at"));
        st.full_zero = s.chance(1, 2, "cap.zero");
    }
    let mut ns = NoSeek::new(st);
    let mut log = vec![];
    for _ in 0..2 + s.draw(20, "ops") {
        let before = ns.get_ref().pos;
        let seeks = ns.get_ref().seeks;
        match s.draw(8, "op") {
            0 => {
                let mut b = vec![0u8; s.draw(12, "n") as usize];
                let r = safely("read", || ns.read(&mut b))?;
                log.push(format!("read {}: {r:?}", b.len()));
            }
            1 => {
                let mut b = vec![0u8; s.draw(12, "n") as usize];
                let r = safely("read_exact", || ns.read_exact(&mut b))?;
                log.push(format!("read_exact {}: {r:?}", b.len()));
                let at = before as usize;
                if r.is_ok() && b[..] != ns.get_ref().data[at..at + b.len()] {
                    fail!("wrong bytes", "{log:?}");
                }
                let room = ns.get_ref().data.len().saturating_sub(at);
                if r.is_ok() != (ns.get_ref().pos - before == b.len() as u64) {
                    fail!("wrong result", "read_exact with {room} bytes left: {log:?}");
                }
            }
            2 => {
                let b: Vec<u8> = (0..s.draw(12, "n")).map(|_| s.draw(256, "byte") as u8).collect();
                let r = safely("write", || ns.write(&b))?;
                log.push(format!("write {}: {r:?}", b.len()));
            }
            3 => {
                let b: Vec<u8> = (0..s.draw(12, "n")).map(|_| s.draw(256, "byte") as u8).collect();
                let r = safely("write_all", || ns.write_all(&b))?;
                log.push(format!("write_all {}: {r:?}", b.len()));
                let at = before as usize;
                if r.is_ok() && (ns.get_ref().pos != before + b.len() as u64 || b[..] != ns.get_ref().data[at..at + b.len()]) {
                    fail!("wrong bytes", "{log:?}");
                }
            }
            4 => {
                // staying in place
                let p = if s.chance(1, 2, "start") { SeekFrom::Start(before) } else { SeekFrom::Current(0) };
                let r = safely("seek", || ns.seek(p))?;
                log.push(format!("seek {p:?}: {r:?}"));
                if r.as_ref().ok() != Some(&before) {
                    fail!("position lost", "the stream is at {before}: {log:?}");
                }
            }
            5 => {
                let p = match s.draw(4, "where") {
                    0 => SeekFrom::Start(s.draw(80, "to")),
                    1 => SeekFrom::Current(s.draw(20, "to") as i64 - 10),
                    2 => SeekFrom::End(s.draw(20, "to") as i64 - 10),
                    _ => SeekFrom::Start(u64::MAX - s.draw(3, "to")),
                };
                let stay = p == SeekFrom::Start(before) || p == SeekFrom::Current(0);
                let r = safely("seek", || ns.seek(p))?;
                log.push(format!("seek {p:?}: {r:?}"));
                match (&r, stay) {
                    (Ok(x), true) if *x == before => {}
                    (Err(e), false) if e.kind() == ErrorKind::Other => {}
                    _ => fail!(if stay { "position lost" } else { "pretends to seek" }, "the stream is at {before}: {log:?}"),
                }
            }
            6 => {
                let r = safely("stream_position", || ns.stream_position())?;
                log.push(format!("stream_position: {r:?}"));
                if r.as_ref().ok() != Some(&before) {
                    fail!("position lost", "the stream is at {before}: {log:?}");
                }
            }
            #[cfg(not(feature = "std"))]
            _ => {}
            #[cfg(feature = "std")]
            _ => {
                if s.chance(1, 2, "vectored.read") {
                    let (mut a, mut b) = (vec![0u8; s.draw(5, "n") as usize], vec![0u8; s.draw(5, "n") as usize]);
                    let r = safely("read_vectored", || ns.read_vectored(&mut [std::io::IoSliceMut::new(&mut a), std::io::IoSliceMut::new(&mut b)]))?;
                    log.push(format!("read_vectored: {r:?}"));
                } else {
                    let b: Vec<u8> = (0..s.draw(12, "n")).map(|_| s.draw(256, "byte") as u8).collect();
                    let (x, y) = b.split_at(b.len() / 2);
                    let r = safely("write_vectored", || ns.write_vectored(&[std::io::IoSlice::new(x), std::io::IoSlice::new(y)]))?;
                    log.push(format!("write_vectored {}: {r:?}", b.len()));
                }
            }
        }
        if ns.get_ref().seeks != seeks {
            fail!("seeks a stream that cannot seek", "{log:?}");
        }
        let pos = safely("position", || ns.seek(SeekFrom::Current(0)))?;
        if pos.as_ref().ok() != Some(&ns.get_ref().pos) {
            fail!("position lost", "the stream is at {}, NoSeek says {pos:?}: {log:?}", ns.get_ref().pos);
        }
    }
    s.probe("adapter");
    Ok(true)
}

/// messages through NoSeek and without it: the same
fn noseek_messages(s: &mut Sim) -> Res {
    let f = |d: &Def| !d.seeky;
    if s.chance(1, 2, "write") {
        let Some((p, vals)) = wvals(s, &f, 3, 2) else { return Ok(false) };
        let mut a = stream(&s.w, "plain", &[]);
        let pa = safely("write", || real_write(&s.zoos[p.zi].1, &p.msgs, &vals, &mut a))?;
        let mut b = stream(&s.w, "wrapped", &[]);
        b.policy = Policy::draw(&s.w);
        b.seekable = false;
        let pb = safely("write", || real_write(&s.zoos[p.zi].1, &p.msgs, &vals, &mut Ns(NoSeek::new(&mut b))))?;
        if pa != pb || a.data != b.data {
            fail!("NoSeek changes the result", "{pa:?} {} without, {pb:?} {} with NoSeek\nvalues {vals:?}\n{}\n{}", hex(&a.data), hex(&b.data), p.text(s), p.src(s));
        }
        s.probe("written");
        return Ok(true);
    }
    let Some(c) = case(s, &f, 3, 4) else { return Ok(false) };
    let mut b = stream(&s.w, "wrapped", &c.data);
    b.policy = Policy::draw(&s.w);
    b.seekable = false;
    let g = safely("read", || real_read(s, &c.p, &mut Ns(NoSeek::new(&mut b))))?;
    if g != c.m.got {
        fail!(diff_class(&g, &c.m.got), "through NoSeek: {g:?}, expected {:?}\ninput {}\n{}\n{}", c.m.got, hex(&c.data), c.p.text(s), c.p.src(s));
    }
    s.probe("read");
    Ok(true)
}
