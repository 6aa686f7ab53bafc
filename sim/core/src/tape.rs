//! The choice tape: every random decision of a simulated run (message type,
//! message content, chunking, latency, scheduling, faults) is one `draw`.
//! A seed expands to a tape; a tape replays exactly; shrinking a failing run is
//! shrinking its tape (0 is always the least disruptive choice).

use dgen::schema::Sm;

pub struct Tape {
    rng: Sm,
    fixed: Option<Vec<u64>>,
    pub rec: Vec<u64>,
    pub labels: Vec<&'static str>,
    pub keep_labels: bool,
    /// every choice is written here before it is used (for runs that kill the process)
    pub log: Option<std::fs::File>,
}

impl Tape {
    pub fn seeded(seed: u64) -> Tape {
        let mut rng = Sm(seed);
        rng.next();
        Tape { rng, fixed: None, rec: vec![], labels: vec![], keep_labels: false, log: None }
    }
    pub fn fixed(v: Vec<u64>) -> Tape {
        Tape { rng: Sm(0), fixed: Some(v), rec: vec![], labels: vec![], keep_labels: true, log: None }
    }
    /// uniform in 0..n
    pub fn draw(&mut self, n: u64, label: &'static str) -> u64 {
        let v = match &self.fixed {
            Some(f) => match f.get(self.rec.len()) {
                Some(v) => {
                    if *v < n {
                        *v
                    } else {
                        n.saturating_sub(1)
                    }
                }
                None => 0,
            },
            None => self.rng.below(n),
        };
        self.rec.push(v);
        if let Some(f) = &mut self.log {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
        if self.keep_labels {
            self.labels.push(label);
        }
        v
    }
    pub fn raw(&mut self, label: &'static str) -> u64 {
        self.draw(u64::MAX, label)
    }
    /// true with probability num/den; `false` is the simple choice
    pub fn chance(&mut self, num: u64, den: u64, label: &'static str) -> bool {
        // value 0 must mean "no"
        self.draw(den, label) >= den - num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T], label: &'static str) -> &'a T {
        &v[self.draw(v.len() as u64, label) as usize]
    }
}
