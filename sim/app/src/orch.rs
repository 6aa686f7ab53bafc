//! Orchestration: worker processes, failure attribution, minimisation, replay
//! files, evidence.

use crate::sim::*;
use dcore::io::*;
use dcore::tape::Tape;
use std::collections::{BTreeMap, HashSet};
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    pub runs: u64,
    pub f: fn(&mut Sim) -> Res,
    /// how cases are made, and what makes one non-trivial
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
}

pub struct RunOut {
    pub res: Res,
    pub hash: u64,
    pub trace: Vec<String>,
    pub faults: Vec<u64>,
    pub now: u64,
    pub ops: u64,
    pub probes: BTreeMap<&'static str, u64>,
    pub tape: Vec<u64>,
    pub labels: Vec<&'static str>,
}

pub fn run_one(p: &Prop, zoos: &'static Zoos, mut tape: Tape, keep: bool) -> RunOut {
    tape.keep_labels = keep;
    let w = world(tape, keep);
    let mut s = Sim { w: w.clone(), zoos, probes: Default::default() };
    let r = guard(|| (p.f)(&mut s));
    let res = match r {
        Ok(r) => r,
        Err(m) => Err(Bad { class: "panic".into(), detail: format!("uncaught: {m}") }),
    };
    let mut g = w.borrow_mut();
    let t = g.tape.take().unwrap();
    RunOut {
        res,
        hash: g.hash,
        trace: std::mem::take(&mut g.trace),
        faults: g.faults.clone(),
        now: g.now,
        ops: g.ops,
        probes: s.probes.clone(),
        tape: t.rec,
        labels: t.labels,
    }
}

pub fn run_seed(prop: &str, seed: u64, i: u64) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in prop.bytes().chain(seed.to_le_bytes()).chain(i.to_le_bytes()) {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

// ---------------------------------------------------------------- worker

/// worker PROP SEED START STRIDE COUNT CAP_MS OUT
pub fn worker(p: &Prop, zoos: &'static Zoos, a: &[String]) {
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (seed, start, stride, count, cap) = (n(0), n(1), n(2), n(3), n(4));
    let out = PathBuf::from(&a[5]);
    let prog = std::fs::File::create(out.with_extension("progress")).unwrap();
    let t0 = Instant::now();
    let mut runs = 0u64;
    let mut nontrivial = 0u64;
    let (mut simtime, mut ops) = (0u64, 0u64);
    let mut faults = vec![0u64; FAULT_NAMES.len()];
    let mut probes: BTreeMap<&'static str, u64> = Default::default();
    let mut hashes: HashSet<u64> = Default::default();
    let mut txt = String::new();
    let mut head: Vec<(u64, u64)> = vec![];
    let mut samples = 0;
    let mut i = start;
    let mut capped = false;
    while i < count {
        if runs % 16 == 0 && t0.elapsed().as_millis() as u64 > cap {
            capped = true;
            break;
        }
        prog.write_all_at(&i.to_le_bytes(), 0).unwrap();
        let keep = samples < 2;
        let o = run_one(p, zoos, Tape::seeded(run_seed(p.id, seed, i)), keep);
        runs += 1;
        simtime += o.now;
        ops += o.ops;
        for (a, b) in faults.iter_mut().zip(&o.faults) {
            *a += b;
        }
        for (k, v) in &o.probes {
            *probes.entry(k).or_default() += v;
        }
        if i < 64 {
            head.push((i, o.hash));
        }
        match o.res {
            Ok(true) => {
                nontrivial += 1;
                hashes.insert(o.hash);
                if keep {
                    samples += 1;
                    let tr: Vec<String> = o.trace.iter().take(40).cloned().collect();
                    txt += &format!("sample {}\n", esc(&format!("run {i} seed {:#x}: {}", run_seed(p.id, seed, i), tr.join(" | "))));
                }
            }
            Ok(false) => {}
            Err(b) => {
                txt += &format!("fail {i} {} {}\n", esc(&b.class).replace(' ', "\\_"), esc(&b.detail));
                break;
            }
        }
        i += stride;
    }
    txt += &format!("runs {runs}\nnontrivial {nontrivial}\nsimtime {simtime}\nops {ops}\ncapped {}\n", capped as u8);
    for (n, c) in FAULT_NAMES.iter().zip(&faults) {
        txt += &format!("fault {n} {c}\n");
    }
    for (n, c) in &probes {
        txt += &format!("probe {} {c}\n", n.replace(' ', "_"));
    }
    for (i, h) in head {
        txt += &format!("head {i} {h}\n");
    }
    let mut hb = vec![];
    for h in &hashes {
        hb.extend(h.to_le_bytes());
    }
    std::fs::write(out.with_extension("hashes"), hb).unwrap();
    std::fs::write(&out, txt).unwrap();
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('_') => o.push(' '),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

// ---------------------------------------------------------------- shrink

/// One execution of a tape, in a process of its own when it may take the process down.
fn class_of(p: &Prop, zoos: &'static Zoos, tape: &[u64]) -> Option<(String, String, Vec<u64>)> {
    let o = run_one(p, zoos, Tape::fixed(tape.to_vec()), false);
    match o.res {
        Err(b) => Some((b.class, b.detail, o.tape)),
        Ok(_) => None,
    }
}

pub struct Shrunk {
    pub tape: Vec<u64>,
    pub tries: u64,
}

pub fn shrink(mut t: Vec<u64>, cap: Duration, fails: &mut dyn FnMut(&[u64]) -> Option<Vec<u64>>) -> Shrunk {
    let t0 = Instant::now();
    let mut tries = 0;
    let mut go = |t: &mut Vec<u64>, c: Vec<u64>, tries: &mut u64| -> bool {
        if t0.elapsed() > cap {
            return false;
        }
        *tries += 1;
        if let Some(mut rec) = fails(&c) {
            // what was really consumed, without trailing zeros
            while rec.last() == Some(&0) {
                rec.pop();
            }
            let better = rec.len() < t.len() || (rec.len() == t.len() && rec < *t);
            if better {
                *t = rec;
                return true;
            }
        }
        false
    };
    loop {
        let before = t.clone();
        // drop the tail
        let mut k = t.len() / 2;
        while k > 0 {
            let c = t[..t.len() - k].to_vec();
            if !go(&mut t, c, &mut tries) {
                k /= 2;
            } else {
                k = k.min(t.len());
            }
        }
        // delete or clear blocks
        for size in [16usize, 8, 4, 2, 1] {
            let mut i = 0;
            while i < t.len() && t0.elapsed() < cap {
                let e = (i + size).min(t.len());
                let mut c = t.clone();
                c.drain(i..e);
                if go(&mut t, c, &mut tries) {
                    continue;
                }
                if t[i..e.min(t.len())].iter().any(|x| *x != 0) {
                    let mut c = t.clone();
                    for x in &mut c[i..e.min(t.len())] {
                        *x = 0;
                    }
                    if go(&mut t, c, &mut tries) {
                        continue;
                    }
                }
                i += size;
            }
        }
        // smaller choices
        let mut i = 0;
        while i < t.len() && t0.elapsed() < cap {
            let mut v = t[i];
            while v > 0 {
                let mut done = true;
                for nv in [0, v / 2, v - 1] {
                    if nv < v && i < t.len() {
                        let mut c = t.clone();
                        c[i] = nv;
                        if go(&mut t, c, &mut tries) {
                            v = t.get(i).copied().unwrap_or(0).min(nv);
                            done = false;
                            break;
                        }
                    }
                }
                if done {
                    break;
                }
            }
            i += 1;
        }
        if t == before || t0.elapsed() > cap {
            break;
        }
    }
    Shrunk { tape: t, tries }
}

/// shrink PROP CLASS TAPEFILE OUT (in-process failures)
pub fn shrink_cmd(p: &Prop, zoos: &'static Zoos, a: &[String]) {
    let class = &a[0];
    let tape = read_tape(Path::new(&a[1]));
    let s = shrink(tape, Duration::from_secs(25), &mut |c| match class_of(p, zoos, c) {
        Some((cl, _, rec)) if cl == *class => Some(rec),
        _ => None,
    });
    std::fs::write(&a[2], format!("{}\n{}\n", s.tries, s.tape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "))).unwrap();
}
pub fn read_tape(p: &Path) -> Vec<u64> {
    std::fs::read_to_string(p).unwrap().lines().last().unwrap_or("").split_whitespace().map(|x| x.parse().unwrap()).collect()
}

// ---------------------------------------------------------------- replay

/// Reads the fields it needs back from a replay file.
pub struct Replay {
    pub prop: String,
    pub class: String,
    pub tape: Vec<u64>,
    pub seed: u64,
    /// runs that have to precede (in one process) for the failure to appear
    pub history: Vec<u64>,
}
pub fn load_replay(p: &str) -> Replay {
    let t = std::fs::read_to_string(p).unwrap_or_else(|e| {
        eprintln!("{p}: {e}");
        std::process::exit(2)
    });
    let get = |k: &str| -> String {
        let pat = format!("\n  \"{k}\": ");
        let i = t.find(&pat).unwrap_or_else(|| panic!("no {k}")) + pat.len();
        t[i..].split(",\n").next().unwrap().trim_matches(|c| c == '"' || c == '[' || c == ']').to_string()
    };
    let list = |k: &str| -> Vec<u64> { get(k).split(", ").filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect() };
    Replay { prop: get("property"), class: get("class"), tape: list("tape"), seed: get("verif_seed").parse().unwrap(), history: list("history") }
}

#[allow(clippy::too_many_arguments)]
fn write_replay(path: &Path, p: &Prop, seed: u64, idx: u64, class: &str, detail: &str, tape: &[u64], o: Option<&RunOut>, orig: usize, tries: u64, history: &[u64]) {
    let nums = |t: &[u64]| t.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", ");
    let mut t = String::from("{\n");
    t += &format!("  \"property\": {},\n  \"class\": {},\n", js(p.id), js(class));
    t += &format!("  \"verif_seed\": {seed},\n  \"run\": {idx},\n  \"run_seed\": {},\n", run_seed(p.id, seed, idx));
    t += &format!("  \"engine\": {},\n", js(&std::env::var("DSIM_ENGINE").unwrap_or_else(|_| "full".into())));
    t += &format!("  \"zoo_seed\": {},\n  \"zoo_n\": {},\n", js(option_env!("ZOO_SEED").unwrap_or("1")), js(option_env!("ZOO_N").unwrap_or("120")));
    t += &format!("  \"choices_before_minimising\": {orig},\n  \"choices\": {},\n  \"minimiser_runs\": {tries},\n", tape.len());
    t += &format!("  \"history\": [{}],\n", nums(history));
    t += &format!("  \"tape\": [{}],\n", nums(tape));
    t += &format!("  \"detail\": {},\n", js(detail));
    if let Some(o) = o {
        let l: Vec<String> = o.labels.iter().zip(&o.tape).map(|(l, v)| js(&format!("{l}={v}"))).collect();
        t += &format!("  \"decisions\": [{}],\n", l.join(", "));
        let l: Vec<String> = o.trace.iter().map(|x| format!("\n    {}", js(x))).collect();
        t += &format!("  \"trace\": [{}\n  ],\n", l.join(","));
        let f: Vec<String> = FAULT_NAMES.iter().zip(&o.faults).filter(|(_, c)| **c > 0).map(|(n, c)| format!("\"{n}\": {c}")).collect();
        t += &format!("  \"faults\": {{{}}},\n", f.join(", "));
    }
    t += "  \"replay_cmd\": \"./replay.sh <this file>\"\n}\n";
    std::fs::write(path, t).unwrap();
}

/// exit 1 and the same class, or 0
pub fn replay(p: &Prop, zoos: &'static Zoos, r: &Replay, path: &str, quiet: bool) -> i32 {
    if r.class.starts_with("crash") || r.class.starts_with("hang") {
        // the failure takes the process down: run the tape in a child
        let tf = PathBuf::from(format!("{path}.tape"));
        std::fs::write(&tf, r.tape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")).unwrap();
        let c = child_class(p.id, &tf, Duration::from_secs(25));
        let _ = std::fs::remove_file(&tf);
        if let Some(c) = c {
            if !quiet {
                println!("reproduced: {c}");
            }
            return if c == r.class { 1 } else { 3 };
        }
        return 0;
    }
    let o = if let Some((last, before)) = r.history.split_last() {
        // the failure depends on what ran before in the same process
        for i in before {
            run_one(p, zoos, Tape::seeded(run_seed(p.id, r.seed, *i)), false);
        }
        run_one(p, zoos, Tape::seeded(run_seed(p.id, r.seed, *last)), true)
    } else {
        run_one(p, zoos, Tape::fixed(r.tape.clone()), true)
    };
    match o.res {
        Err(b) => {
            if !quiet {
                for l in &o.trace {
                    println!("  {l}");
                }
                println!("reproduced: {}: {}", b.class, b.detail);
            }
            if b.class == r.class {
                1
            } else {
                3
            }
        }
        Ok(_) => 0,
    }
}

/// history PROP SEED i,j,k: the runs in this order in one process; the last one counts
pub fn history_cmd(p: &Prop, zoos: &'static Zoos, a: &[String]) -> i32 {
    let seed: u64 = a[0].parse().unwrap();
    let l: Vec<u64> = a[1].split(',').map(|x| x.parse().unwrap()).collect();
    let mut last = None;
    for i in l {
        last = Some(run_one(p, zoos, Tape::seeded(run_seed(p.id, seed, i)), false).res);
    }
    match last {
        Some(Err(b)) => {
            println!("{}", b.class);
            1
        }
        _ => 0,
    }
}
fn history_class(prop: &str, seed: u64, l: &[u64]) -> Option<String> {
    let exe = std::env::current_exe().unwrap();
    let l: Vec<String> = l.iter().map(|x| x.to_string()).collect();
    let o = Command::new(exe).args(["history", prop, &seed.to_string(), &l.join(",")]).stderr(Stdio::null()).output().ok()?;
    (o.status.code() == Some(1)).then(|| String::from_utf8_lossy(&o.stdout).trim().to_string())
}
/// The shortest run of predecessors (of the same worker) with which `idx` still fails.
fn find_history(prop: &str, seed: u64, idx: u64, stride: u64, class: &str) -> Option<Vec<u64>> {
    let all: Vec<u64> = (idx % stride..=idx).step_by(stride as usize).collect();
    let t0 = Instant::now();
    let fails = |l: &[u64]| history_class(prop, seed, l).as_deref() == Some(class);
    let mut n = 2usize;
    let mut best: Vec<u64> = loop {
        if t0.elapsed() > Duration::from_secs(60) {
            return None;
        }
        let k = n.min(all.len());
        let l = all[all.len() - k..].to_vec();
        // command lines are limited
        if k <= 10_000 && fails(&l) {
            break l;
        }
        if k == all.len() || k > 10_000 {
            return None;
        }
        n *= 4;
    };
    // drop predecessors that do not matter
    let mut size = (best.len() / 2).max(1);
    while size > 0 && t0.elapsed() < Duration::from_secs(90) {
        let mut i = 0;
        while i + 1 < best.len() && t0.elapsed() < Duration::from_secs(90) {
            let e = (i + size).min(best.len() - 1);
            let mut c = best.clone();
            c.drain(i..e);
            if fails(&c) {
                best = c;
            } else {
                i = e;
            }
        }
        size /= 2;
    }
    Some(best)
}

/// Runs a tape in a child process: Some(class) when it dies, hangs or fails.
fn child_class(prop: &str, tape: &Path, cap: Duration) -> Option<String> {
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new(exe).args(["tape", prop, tape.to_str().unwrap()]).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
    let t0 = Instant::now();
    loop {
        if let Some(st) = c.try_wait().unwrap() {
            if let Some(sig) = st.signal() {
                return Some(format!("crash: signal {sig}"));
            }
            let mut o = String::new();
            use std::io::Read;
            let _ = c.stdout.take().unwrap().read_to_string(&mut o);
            return match st.code() {
                Some(0) => None,
                Some(1) => Some(o.trim().to_string()),
                Some(x) => Some(format!("crash: exit {x}")),
                None => Some("crash".into()),
            };
        }
        if t0.elapsed() > cap {
            let _ = c.kill();
            let _ = c.wait();
            return Some("hang: no progress".into());
        }
        std::thread::sleep(Duration::from_millis(2));
    }
}
pub fn tape_cmd(p: &Prop, zoos: &'static Zoos, a: &[String]) -> i32 {
    let t = read_tape(Path::new(&a[0]));
    match run_one(p, zoos, Tape::fixed(t), false).res {
        Err(b) => {
            println!("{}", b.class);
            1
        }
        Ok(_) => 0,
    }
}

// ---------------------------------------------------------------- check

pub struct Fail {
    pub idx: u64,
    pub class: String,
    pub detail: String,
    pub fatal: bool,
}

#[derive(Default)]
pub struct Totals {
    pub runs: u64,
    pub nontrivial: u64,
    pub simtime: u64,
    pub ops: u64,
    pub capped: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub hashes: HashSet<u64>,
    pub head: BTreeMap<u64, u64>,
    pub fails: Vec<Fail>,
}

pub fn explore(p: &Prop, seed: u64, count: u64, cap_ms: u64, workers: u64, dir: &Path) -> Totals {
    let exe = std::env::current_exe().unwrap();
    let mut tot = Totals::default();
    struct W {
        c: std::process::Child,
        out: PathBuf,
        last: u64,
        since: Instant,
        done: bool,
    }
    let mut ws: Vec<W> = (0..workers)
        .map(|k| {
            let out = dir.join(format!("w{k}"));
            let c = Command::new(&exe)
                .args(["worker", p.id, &seed.to_string(), &k.to_string(), &workers.to_string(), &count.to_string(), &cap_ms.to_string(), out.to_str().unwrap()])
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .spawn()
                .expect("spawn worker");
            W { c, out, last: u64::MAX, since: Instant::now(), done: false }
        })
        .collect();
    let progress = |w: &W| -> u64 { std::fs::read(w.out.with_extension("progress")).ok().and_then(|b| b.get(..8).map(|b| u64::from_le_bytes(b.try_into().unwrap()))).unwrap_or(u64::MAX) };
    loop {
        let mut open = 0;
        for w in &mut ws {
            if w.done {
                continue;
            }
            match w.c.try_wait().unwrap() {
                Some(st) => {
                    w.done = true;
                    if !st.success() {
                        let idx = progress(w);
                        let how = st.signal().map(|s| format!("crash: signal {s}")).unwrap_or_else(|| format!("crash: exit {}", st.code().unwrap_or(-1)));
                        tot.fails.push(Fail { idx, class: how.clone(), detail: format!("the process running the simulation died ({how})"), fatal: true });
                    }
                }
                None => {
                    open += 1;
                    let p = progress(w);
                    if p != w.last {
                        w.last = p;
                        w.since = Instant::now();
                    } else if w.since.elapsed() > Duration::from_secs(30) {
                        let _ = w.c.kill();
                        let _ = w.c.wait();
                        w.done = true;
                        tot.fails.push(Fail { idx: p, class: "hang: no progress".into(), detail: "a run made no progress for 30 s".into(), fatal: true });
                    }
                }
            }
        }
        if open == 0 {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    for w in &ws {
        let Ok(t) = std::fs::read_to_string(&w.out) else { continue };
        for l in t.lines() {
            let f: Vec<&str> = l.splitn(4, ' ').collect();
            let n = |i: usize| f[i].parse::<u64>().unwrap_or(0);
            match f[0] {
                "runs" => tot.runs += n(1),
                "nontrivial" => tot.nontrivial += n(1),
                "simtime" => tot.simtime += n(1),
                "ops" => tot.ops += n(1),
                "capped" => tot.capped += n(1),
                "fault" => *tot.faults.entry(f[1].into()).or_default() += n(2),
                "probe" => *tot.probes.entry(f[1].into()).or_default() += n(2),
                "head" => {
                    tot.head.insert(n(1), n(2));
                }
                "sample" => tot.samples.push(unesc(&l[7..])),
                "fail" => tot.fails.push(Fail { idx: n(1), class: unesc(f[2]), detail: unesc(f.get(3).unwrap_or(&"")), fatal: false }),
                _ => {}
            }
        }
        if let Ok(h) = std::fs::read(w.out.with_extension("hashes")) {
            for c in h.chunks_exact(8) {
                tot.hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    tot.fails.sort_by_key(|f| f.idx);
    tot
}

/// `finding: property=<id> class=<class> match=<text>` lines
fn known(prop: &str) -> Vec<(String, String)> {
    let f = std::env::var("DSIM_KNOWN").unwrap_or_else(|_| "known-findings.txt".into());
    let Ok(t) = std::fs::read_to_string(f) else { return vec![] };
    t.lines()
        .filter_map(|l| l.strip_prefix(&format!("finding: property={prop} match=")))
        .filter_map(|l| l.split_once(" | ").map(|(a, b)| (a.to_string(), b.to_string())))
        .collect()
}

pub fn check(p: &Prop, zoos: &'static Zoos, tier: &str) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let scale: f64 = std::env::var("DSIM_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let ev = PathBuf::from(std::env::var("DSIM_EVIDENCE").unwrap_or_else(|_| "evidence".into()));
    std::fs::create_dir_all(&ev).unwrap();
    let dir = std::env::temp_dir().join(format!("dsim-{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let thorough = tier == "thorough";
    let count = ((p.runs * if thorough { 8 } else { 1 }) as f64 * scale) as u64;
    let cap = if thorough { 150_000 } else { 90_000 };
    let workers = std::thread::available_parallelism().map_or(8, |n| n.get() as u64).clamp(2, 8);
    let mut tot = explore(p, seed, count, cap, workers, &dir);
    let explore_s = t0.elapsed().as_secs_f64();

    // the same seeds again in this process: every run must repeat exactly
    let mut repeats = 0;
    let mut diverged = 0;
    if tot.fails.is_empty() {
        for (i, h) in &tot.head {
            repeats += 1;
            let o = run_one(p, zoos, Tape::seeded(run_seed(p.id, seed, *i)), true);
            if o.hash != *h {
                diverged += 1;
            }
        }
    }
    let mut code = 0;
    let mut violations = 0;
    let mut unconfirmed = 0u64;
    let kn = known(p.id);
    let fails = std::mem::take(&mut tot.fails);
    let mut told: HashSet<String> = Default::default();
    for f in &fails {
        let hay = format!("{} {}", f.class, f.detail);
        if let Some((_, what)) = kn.iter().find(|(m, _)| hay.contains(m.as_str())) {
            if told.insert(what.clone()) {
                println!("KNOWN-FINDING: property={} {what}", p.id);
            }
            continue;
        }
        violations += 1;
        if violations > 1 {
            continue;
        }
        code = 1;
        let path = ev.join(format!("{}.replay.json", p.id));
        let tapef = dir.join("tape");
        let join = |t: &[u64]| t.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
        if f.fatal {
            // the full tape of a run that dies is not known: draw it lazily from the seed, in a child
            let rec = dir.join("rec");
            let mut orig = record_fatal(p, seed, f.idx, &rec);
            let n0 = orig.len();
            std::fs::write(&tapef, join(&orig)).unwrap();
            let Some(mut class) = child_class(p.id, &tapef, Duration::from_secs(30)) else {
                // not the doing of the code under test: the same choices run to their end
                eprintln!("run {} was lost ({}) but completes when repeated", f.idx, f.class);
                unconfirmed += 1;
                violations -= 1;
                code = if violations > 0 { 1 } else { 0 };
                continue;
            };
            let mut tries = 0;
            if class.starts_with("crash") {
                let sh = shrink(orig.clone(), Duration::from_secs(20), &mut |c| {
                    std::fs::write(&tapef, join(c)).unwrap();
                    match child_class(p.id, &tapef, Duration::from_secs(5)) {
                        Some(k) if k == class => Some(c.to_vec()),
                        _ => None,
                    }
                });
                orig = sh.tape;
                tries = sh.tries;
            } else if class.starts_with("hang") {
                class = "hang: no progress".into();
            }
            write_replay(&path, p, seed, f.idx, &class, &f.detail, &orig, None, n0, tries, &[]);
            println!("{}: {}", class, f.detail);
        } else {
            let o = run_one(p, zoos, Tape::seeded(run_seed(p.id, seed, f.idx)), true);
            let orig = o.tape.clone();
            if o.res.is_ok() {
                // alone the run is fine: something is carried over from earlier runs
                match find_history(p.id, seed, f.idx, workers, &f.class) {
                    Some(h) => {
                        let what = format!("{} (only after {} other sessions in the same process: state is carried over between them)", f.detail, h.len() - 1);
                        write_replay(&path, p, seed, f.idx, &f.class, &what, &orig, Some(&o), orig.len(), 0, &h);
                        println!("{}: {what}", f.class);
                        println!("VIOLATION property={} replay={}", p.id, path.display());
                    }
                    None => {
                        eprintln!("run {} failed ({}: {}) but does not fail when repeated", f.idx, f.class, f.detail);
                        unconfirmed += 1;
                        violations -= 1;
                        code = 2;
                    }
                }
                continue;
            }
            std::fs::write(&tapef, join(&orig)).unwrap();
            let so = dir.join("shrunk");
            let exe = std::env::current_exe().unwrap();
            let mut c = Command::new(exe)
                .args(["shrink", p.id, &f.class, tapef.to_str().unwrap(), so.to_str().unwrap()])
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .spawn()
                .unwrap();
            let t1 = Instant::now();
            while c.try_wait().unwrap().is_none() {
                if t1.elapsed() > Duration::from_secs(40) {
                    let _ = c.kill();
                    let _ = c.wait();
                    break;
                }
                std::thread::sleep(Duration::from_millis(5));
            }
            let (mut tape, mut tries) = (orig.clone(), 0);
            if let Ok(t) = std::fs::read_to_string(&so) {
                tries = t.lines().next().and_then(|x| x.parse().ok()).unwrap_or(0);
                tape = read_tape(&so);
            }
            let mut o = run_one(p, zoos, Tape::fixed(tape.clone()), true);
            if !matches!(&o.res, Err(b) if b.class == f.class) {
                tape = orig.clone();
                o = run_one(p, zoos, Tape::fixed(tape.clone()), true);
            }
            let (class, detail) = match &o.res {
                Err(b) => (b.class.clone(), b.detail.clone()),
                Ok(_) => (f.class.clone(), f.detail.clone()),
            };
            write_replay(&path, p, seed, f.idx, &class, &detail, &tape, Some(&o), orig.len(), tries, &[]);
            println!("{class}: {detail}");
            println!("run {} of seed {seed}, minimised from {} to {} choices", f.idx, orig.len(), tape.len());
        }
        println!("VIOLATION property={} replay={}", p.id, path.display());
    }
    let mut planned = count;
    let mut wall0 = 0.0;
    let mut types = zoo_types();
    let mut kinds = tot.hashes.len() as u64;
    if let Ok(acc) = std::env::var("DSIM_ACC") {
        accumulate(Path::new(&acc), &mut tot, &mut planned, &mut wall0, &mut types, &mut kinds, &mut repeats, &mut diverged, t0.elapsed().as_secs_f64());
    }
    let _ = unconfirmed;
    evidence(&ev, p, tier, seed, &tot, planned, wall0 + t0.elapsed().as_secs_f64(), explore_s + wall0, workers, violations, repeats, diverged, types, kinds, unconfirmed);
    for f in std::fs::read_dir(&dir).into_iter().flatten().flatten() {
        let _ = std::fs::remove_file(f.path());
    }
    let _ = std::fs::remove_dir(&dir);
    if code == 0 {
        println!(
            "ok property={} runs={} nontrivial={} distinct={} wall={:.1}s",
            p.id,
            tot.runs,
            tot.nontrivial,
            tot.hashes.len(),
            t0.elapsed().as_secs_f64()
        );
        if tot.nontrivial == 0 {
            eprintln!("nothing was exercised");
            return 2;
        }
        if diverged > 0 {
            eprintln!("{diverged} of {repeats} repeated runs were not identical");
            return 2;
        }
    }
    code
}

/// choices made by a run that kills its process
fn record_fatal(p: &Prop, seed: u64, idx: u64, rec: &Path) -> Vec<u64> {
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new(exe)
        .args(["record", p.id, &seed.to_string(), &idx.to_string(), rec.to_str().unwrap()])
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let t0 = Instant::now();
    while c.try_wait().unwrap().is_none() {
        if t0.elapsed() > Duration::from_secs(10) {
            let _ = c.kill();
            let _ = c.wait();
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    let b = std::fs::read(rec).unwrap_or_default();
    b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()
}
pub fn record_cmd(p: &Prop, zoos: &'static Zoos, a: &[String]) {
    let mut t = Tape::seeded(run_seed(p.id, a[0].parse().unwrap(), a[1].parse().unwrap()));
    t.log = Some(std::fs::File::create(&a[2]).unwrap());
    run_one(p, zoos, t, false);
}

#[allow(clippy::too_many_arguments)]
fn evidence(ev: &Path, p: &Prop, tier: &str, seed: u64, t: &Totals, planned: u64, wall: f64, explore_s: f64, workers: u64, violations: u64, repeats: u64, diverged: u64, types: usize, kinds: u64, unconfirmed: u64) {
    let mut o = String::from("{\n");
    o += &format!("  \"property\": {}, \"tier\": {}, \"seed\": {seed}, \"level\": \"exploration\",\n", js(p.id), js(tier));
    o += "  \"coverage\": {\n";
    o += &format!("    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n", t.runs, kinds);
    o += &format!("    \"rule\": {},\n", js(p.rule));
    let s: Vec<String> = t.samples.iter().take(3).map(|s| js(s)).collect();
    o += &format!("    \"samples\": [{}],\n", s.join(", "));
    o += &format!("    \"simulated_runs\": {}, \"planned_runs\": {planned}, \"nontrivial_runs\": {}, \"workers_stopped_by_time_cap\": {},\n", t.runs, t.nontrivial, t.capped);
    o += &format!("    \"seeds_per_hour\": {},\n", (t.runs as f64 / explore_s.max(0.001) * 3600.0) as u64);
    o += &format!("    \"simulated_time_us\": {}, \"simulated_io_operations\": {},\n", t.simtime, t.ops);
    let f: Vec<String> = t.faults.iter().map(|(n, c)| format!("{}: {c}", js(n))).collect();
    o += &format!("    \"faults_fired\": {{{}}},\n", f.join(", "));
    let f: Vec<String> = t.probes.iter().map(|(n, c)| format!("{}: {c}", js(n))).collect();
    o += &format!("    \"probes\": {{{}}},\n", f.join(", "));
    o += &format!("    \"distinct_executions_by_event_hash\": {kinds},\n");
    o += &format!("    \"runs_repeated_for_determinism\": {repeats}, \"runs_that_diverged\": {diverged}, \"runs_lost_and_repeated\": {unconfirmed},\n");
    o += &format!("    \"message_types\": {types}, \"worker_processes\": {workers},\n");
    let l = |x: &[&str]| x.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ");
    o += &format!("    \"real_code\": [{}], \"stubs\": [{}]\n  }},\n", l(p.real), l(p.stub));
    o += "  \"assumptions\": [\"streams keep the std::io contract (a call that fails or is interrupted moved no data)\", \"the reference model interprets the documented attribute semantics\"],\n";
    o += &format!("  \"wall_s\": {wall:.2}, \"violations\": {violations}\n}}\n");
    std::fs::write(ev.join(format!("{}.json", p.id)), o).unwrap();
}

/// Totals over several sets of message types (one process each).
#[allow(clippy::too_many_arguments)]
fn accumulate(path: &Path, t: &mut Totals, planned: &mut u64, wall: &mut f64, types: &mut usize, kinds: &mut u64, repeats: &mut u64, diverged: &mut u64, mine: f64) {
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        let Some((k, v)) = l.split_once(' ') else { continue };
        let n: u64 = v.parse().unwrap_or(0);
        match k {
            "runs" => t.runs += n,
            "nontrivial" => t.nontrivial += n,
            "simtime" => t.simtime += n,
            "ops" => t.ops += n,
            "capped" => t.capped += n,
            "planned" => *planned += n,
            "wall_ms" => *wall += n as f64 / 1000.0,
            "types" => *types += n as usize,
            "kinds" => *kinds += n,
            "repeats" => *repeats += n,
            "diverged" => *diverged += n,
            _ => {
                if let Some(x) = k.strip_prefix("fault:") {
                    *t.faults.entry(x.into()).or_default() += n;
                } else if let Some(x) = k.strip_prefix("probe:") {
                    *t.probes.entry(x.into()).or_default() += n;
                }
            }
        }
    }
    let mut o = format!(
        "runs {}\nnontrivial {}\nsimtime {}\nops {}\ncapped {}\nplanned {planned}\nwall_ms {}\ntypes {types}\nkinds {kinds}\nrepeats {repeats}\ndiverged {diverged}\n",
        t.runs,
        t.nontrivial,
        t.simtime,
        t.ops,
        t.capped,
        ((*wall + mine) * 1000.0) as u64
    );
    for (k, v) in &t.faults {
        o += &format!("fault:{k} {v}\n");
    }
    for (k, v) in &t.probes {
        o += &format!("probe:{k} {v}\n");
    }
    std::fs::write(path, o).unwrap();
}

fn zoo_types() -> usize {
    crate::zoos().iter().map(|z| z.0.defs.len()).sum()
}

pub fn flush() {
    let _ = std::io::stdout().flush();
}
