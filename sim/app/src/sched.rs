//! The simulated scheduler: tasks are OS threads of which exactly one holds the
//! baton.  At every I/O operation the running task hands the baton back and the
//! choice tape decides who runs next; a task that waits for a peer is not
//! runnable; when nobody is runnable the simulated clock jumps to the next
//! delivery; when there is none either, the run has deadlocked.

use dcore::io::*;
use deku::no_std_io::{Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};
use std::collections::VecDeque;
use std::sync::{Arc, Condvar, Mutex, MutexGuard};

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    WaitRead(usize),
    WaitWrite(usize),
    Done,
}

struct Pipe {
    name: &'static str,
    cap: usize,
    /// (arrival time, bytes)
    segs: VecDeque<(u64, VecDeque<u8>)>,
    buffered: usize,
    closed_w: bool,
    closed_r: bool,
    delivered: u64,
    sent: u64,
    latency: u64,
    last_arrival: u64,
    /// the connection breaks after this many delivered bytes
    reset_at: Option<(u64, ErrorKind)>,
    broken: bool,
    /// everything that was sent
    log: Vec<u8>,
}

struct Inner {
    cur: usize,
    tasks: Vec<St>,
    pipes: Vec<Pipe>,
    dead: bool,
    switches: u64,
}

pub struct Sched {
    pub w: Wd,
    st: Mutex<Inner>,
    cvs: Vec<Condvar>,
    policy: Policy,
}

const IDLE: usize = usize::MAX;

impl Sched {
    pub fn new(w: &Wd, tasks: usize, policy: Policy) -> Arc<Sched> {
        Arc::new(Sched {
            w: w.clone(),
            st: Mutex::new(Inner { cur: IDLE, tasks: vec![St::Ready; tasks], pipes: vec![], dead: false, switches: 0 }),
            cvs: (0..tasks).map(|_| Condvar::new()).collect(),
            policy,
        })
    }
    fn lock(&self) -> MutexGuard<'_, Inner> {
        match self.st.lock() {
            Ok(g) => g,
            Err(e) => e.into_inner(),
        }
    }
    pub fn pipe(self: &Arc<Self>, name: &'static str, cap: usize, latency: u64) -> usize {
        let mut s = self.lock();
        s.pipes.push(Pipe {
            name,
            cap,
            segs: VecDeque::new(),
            buffered: 0,
            closed_w: false,
            closed_r: false,
            delivered: 0,
            sent: 0,
            latency,
            last_arrival: 0,
            reset_at: None,
            broken: false,
            log: vec![],
        });
        s.pipes.len() - 1
    }
    pub fn reset_after(&self, p: usize, bytes: u64, k: ErrorKind) {
        self.lock().pipes[p].reset_at = Some((bytes, k));
    }
    pub fn delivered(&self, p: usize) -> u64 {
        self.lock().pipes[p].delivered
    }
    /// bytes sent so far
    pub fn sent(&self, p: usize) -> Vec<u8> {
        self.lock().pipes[p].log.clone()
    }
    pub fn broke(&self, p: usize) -> bool {
        self.lock().pipes[p].broken
    }
    pub fn switches(&self) -> u64 {
        self.lock().switches
    }

    fn readable(p: &Pipe, now: u64) -> bool {
        p.broken || p.reset_at.is_some_and(|(b, _)| p.delivered >= b) || p.segs.front().is_some_and(|s| s.0 <= now) || (p.closed_w && p.segs.is_empty())
    }
    fn writable(p: &Pipe) -> bool {
        p.broken || p.closed_r || p.buffered < p.cap
    }

    /// choose the next task; never returns a blocked one
    fn pick(&self, s: &mut Inner, me: usize) {
        loop {
            let now = self.w.borrow_mut().now;
            let mut c: Vec<usize> = vec![];
            for (i, t) in s.tasks.iter().enumerate() {
                let ok = match *t {
                    St::Ready => true,
                    St::WaitRead(p) => Self::readable(&s.pipes[p], now),
                    St::WaitWrite(p) => Self::writable(&s.pipes[p]),
                    St::Done => false,
                };
                if ok {
                    c.push(i);
                }
            }
            // choice 0: carry on
            if let Some(k) = c.iter().position(|i| *i == me) {
                c.remove(k);
                c.insert(0, me);
            }
            if !c.is_empty() {
                let k = if c.len() == 1 { 0 } else { self.w.draw(c.len() as u64, "sched") as usize };
                s.cur = c[k];
                if c[k] != me {
                    s.switches += 1;
                    let t = c[k];
                    self.w.borrow_mut().ev(500 + t as u64, || format!("scheduler: task {t} runs"));
                }
                return;
            }
            if s.tasks.iter().all(|t| *t == St::Done) {
                s.cur = IDLE;
                return;
            }
            let next = s
                .tasks
                .iter()
                .filter_map(|t| match t {
                    St::WaitRead(p) => s.pipes[*p].segs.front().map(|x| x.0),
                    _ => None,
                })
                .min();
            match next {
                Some(t) => self.w.borrow_mut().now = t,
                None => {
                    s.dead = true;
                    let d = format!("{:?}", s.tasks);
                    self.w.borrow_mut().ev(499, || format!("deadlock: {d}"));
                    // let the waiting tasks fail one after another
                    s.cur = s.tasks.iter().position(|t| *t != St::Done).unwrap();
                    return;
                }
            }
        }
    }
    fn wait<'a>(&'a self, mut s: MutexGuard<'a, Inner>, me: usize) -> MutexGuard<'a, Inner> {
        while s.cur != me {
            s = match self.cvs[me].wait(s) {
                Ok(g) => g,
                Err(e) => e.into_inner(),
            };
        }
        s.tasks[me] = St::Ready;
        s
    }
    fn switch<'a>(&'a self, mut s: MutexGuard<'a, Inner>, me: usize, st: St) -> MutexGuard<'a, Inner> {
        s.tasks[me] = st;
        self.pick(&mut s, me);
        if s.cur != me {
            if s.cur != IDLE {
                self.cvs[s.cur].notify_one();
            }
            s = self.wait(s, me);
        }
        s.tasks[me] = St::Ready;
        s
    }
    /// a scheduling point
    pub fn yield_now(&self, me: usize) {
        let s = self.lock();
        if s.dead {
            return;
        }
        drop(self.switch(s, me, St::Ready));
    }
    fn done(&self, me: usize) {
        let mut s = self.lock();
        s.tasks[me] = St::Done;
        if s.dead {
            match s.tasks.iter().position(|t| *t != St::Done) {
                Some(i) => {
                    s.cur = i;
                    self.cvs[i].notify_one();
                }
                None => s.cur = IDLE,
            }
            return;
        }
        self.pick(&mut s, me);
        if s.cur != IDLE {
            self.cvs[s.cur].notify_one();
        }
    }

    /// Runs the tasks to completion and returns their results in order.
    /// A panic of a task is returned as its message.
    pub fn run<T: Send + 'static>(self: &Arc<Self>, tasks: Vec<Box<dyn FnOnce(Arc<Sched>, usize) -> T + Send>>) -> Vec<std::result::Result<T, String>> {
        let mut hs = vec![];
        for (i, f) in tasks.into_iter().enumerate() {
            let sc = self.clone();
            hs.push(
                std::thread::Builder::new()
                    .stack_size(4 << 20)
                    .spawn(move || {
                        let s = sc.lock();
                        drop(sc.wait(s, i));
                        let r = crate::sim::guard(|| f(sc.clone(), i));
                        sc.done(i);
                        r
                    })
                    .expect("spawn"),
            );
        }
        {
            let mut s = self.lock();
            self.pick(&mut s, IDLE);
            if s.cur != IDLE {
                self.cvs[s.cur].notify_one();
            }
        }
        hs.into_iter().map(|h| h.join().expect("join")).collect()
    }

    fn pre(&self, want: usize, write: bool) -> Result<usize> {
        let mut w = self.w.borrow_mut();
        w.step();
        if self.policy.intr > 0 && w.chance(1, self.policy.intr, "intr") {
            w.fault(if write { Fault::interrupted_write } else { Fault::interrupted_read });
            w.ev(7, || "interrupted".into());
            return Err(Error::from(ErrorKind::Interrupted));
        }
        let mut n = want;
        if self.policy.short > 0 && want > 1 && w.chance(1, self.policy.short, "short") {
            let m = (self.policy.max_chunk as usize).min(want - 1).max(1);
            n = 1 + w.draw(m as u64, "chunk") as usize;
            if n < want {
                w.fault(if write { Fault::short_write } else { Fault::short_read });
            }
        }
        Ok(n)
    }
}

pub struct PipeR {
    pub s: Arc<Sched>,
    pub p: usize,
    pub me: usize,
}
pub struct PipeW {
    pub s: Arc<Sched>,
    pub p: usize,
    pub me: usize,
}

impl Read for PipeR {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        self.s.yield_now(self.me);
        let n = self.s.pre(buf.len(), false)?;
        let mut s = self.s.lock();
        loop {
            if s.dead {
                drop(s);
                std::panic::panic_any(Deadlock);
            }
            let now = self.s.w.borrow_mut().now;
            let p = &mut s.pipes[self.p];
            if p.broken || p.reset_at.is_some_and(|(b, _)| p.delivered >= b) {
                let k = p.reset_at.map_or(ErrorKind::BrokenPipe, |x| x.1);
                p.broken = true;
                let name = p.name;
                let mut w = self.s.w.borrow_mut();
                w.fault(Fault::read_error);
                w.ev(11, || format!("{name}: connection lost ({k:?})"));
                return Err(Error::from(k));
            }
            if p.segs.front().is_some_and(|x| x.0 <= now) {
                let mut lim = n;
                if let Some((b, _)) = p.reset_at {
                    lim = lim.min((b - p.delivered) as usize);
                }
                // what has arrived so far may be handed out together
                let mut k = 0;
                while k < lim {
                    match p.segs.front_mut() {
                        Some((t, d)) if *t <= now => {
                            buf[k] = d.pop_front().unwrap();
                            k += 1;
                            if d.is_empty() {
                                p.segs.pop_front();
                            }
                        }
                        _ => break,
                    }
                }
                p.buffered -= k;
                p.delivered += k as u64;
                let (name, want) = (p.name, buf.len());
                self.s.w.borrow_mut().ev(100 + k as u64, || format!("{name}: read {want}: {k} bytes"));
                return Ok(k);
            }
            if p.closed_w && p.segs.is_empty() {
                let name = p.name;
                self.s.w.borrow_mut().ev(13, || format!("{name}: end of stream"));
                return Ok(0);
            }
            s = self.s.switch(s, self.me, St::WaitRead(self.p));
        }
    }
}
impl Write for PipeW {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        self.s.yield_now(self.me);
        let n = self.s.pre(buf.len(), true)?;
        let mut s = self.s.lock();
        loop {
            if s.dead {
                drop(s);
                std::panic::panic_any(Deadlock);
            }
            let p = &mut s.pipes[self.p];
            if p.broken || p.closed_r {
                let name = p.name;
                let mut w = self.s.w.borrow_mut();
                w.fault(Fault::write_error);
                w.ev(17, || format!("{name}: write to a closed pipe"));
                return Err(Error::from(ErrorKind::BrokenPipe));
            }
            let room = p.cap - p.buffered.min(p.cap);
            if room > 0 {
                let k = n.min(room);
                let mut w = self.s.w.borrow_mut();
                let lat = if p.latency > 0 { w.draw(p.latency, "latency") } else { 0 };
                if lat > 0 {
                    w.fault(Fault::latency);
                }
                let t = p.last_arrival.max(w.now + lat);
                p.last_arrival = t;
                p.segs.push_back((t, buf[..k].iter().copied().collect()));
                p.buffered += k;
                p.sent += k as u64;
                p.log.extend_from_slice(&buf[..k]);
                let (name, want) = (p.name, buf.len());
                w.ev(1000 + k as u64, || format!("{name}: write {want}: {k} bytes, arrive at t={t}us"));
                return Ok(k);
            }
            s = self.s.switch(s, self.me, St::WaitWrite(self.p));
        }
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
impl Drop for PipeR {
    fn drop(&mut self) {
        self.s.lock().pipes[self.p].closed_r = true;
    }
}
impl Drop for PipeW {
    fn drop(&mut self) {
        self.s.lock().pipes[self.p].closed_w = true;
    }
}
// one direction each: the other operations do not exist
impl Write for PipeR {
    fn write(&mut self, _: &[u8]) -> Result<usize> {
        Err(Error::from(ErrorKind::PermissionDenied))
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
impl Read for PipeW {
    fn read(&mut self, _: &mut [u8]) -> Result<usize> {
        Err(Error::from(ErrorKind::PermissionDenied))
    }
}

/// A private stream whose every operation is also a scheduling point.
pub struct Shared {
    pub st: Stream,
    pub s: Arc<Sched>,
    pub me: usize,
}
impl Rws for Shared {
    fn r(&mut self, b: &mut [u8]) -> Result<usize> {
        self.s.yield_now(self.me);
        self.st.read(b)
    }
    fn wr(&mut self, b: &[u8]) -> Result<usize> {
        self.s.yield_now(self.me);
        self.st.write(b)
    }
    fn fl(&mut self) -> Result<()> {
        self.st.flush()
    }
    fn sk(&mut self, p: SeekFrom) -> Result<u64> {
        self.s.yield_now(self.me);
        self.st.seek(p)
    }
}
