//! Feature configurations: the scenarios of the other properties in a build of
//! the library with another set of features, against the same reference model.

use crate::sim::*;
use dcore::io::*;
use dcore::tape::Tape;
use crate::{p_read, p_sys, p_write};

const SCENARIOS: &[(&str, fn(&mut Sim) -> Res)] = &[
    ("feat_delivery", p_read::c_delivery),
    ("feat_read_faults", p_read::c_read_faults),
    ("feat_truncation", p_read::c_truncation),
    ("feat_sink", p_write::c_sink),
    ("feat_sink_faults", p_write::c_sink_faults),
    ("feat_recovery", p_write::c_recovery),
    ("feat_hostile", p_read::c_hostile),
    ("feat_drops", p_read::c_drops),
    ("feat_position", p_read::c_position),
    ("feat_container", p_read::c_container),
    ("feat_enum", p_read::c_enum),
    ("feat_gates", p_read::c_gates),
    ("feat_seek", p_read::c_seek),
    ("feat_size", p_write::c_size),
    ("feat_update", p_write::c_update),
    ("feat_noseek", p_sys::c_noseek),
];

pub fn c_features(s: &mut Sim) -> Res {
    let (name, f) = SCENARIOS[s.draw(SCENARIOS.len() as u64, "scenario") as usize];
    let r = f(s)?;
    if r {
        s.probe(name);
    }
    Ok(r)
}

/// What one session of drawn messages comes to, whatever the model says about it.
pub fn outcome(zoos: &'static Zoos, zi: usize, i: u64) -> (u64, String) {
    let w = world(Tape::seeded(crate::orch::run_seed("outcome", zoos[zi].0.seed, i)), false);
    let s = Sim { w, zoos, probes: Default::default() };
    let mut o = String::new();
    let r = guard(|| {
        let Some(p) = plan_in(&s, zi, &Want { filter: &|_| true, max_msgs: 3, budget: 8 }) else { return };
        let mut data = p.data.clone();
        corrupt(&s, &mut data, 3);
        let mut st = stream(&s.w, "in", &data);
        st.seekable = s.draw(4, "seekable") > 0;
        let g = real_read(&s, &p, &mut st);
        for m in &p.msgs {
            o += &format!("T{} ({:?}, {:?}, n={}) ", m.di, m.leaf.en, m.leaf.or, m.n);
        }
        o += &format!("stream {}\nread {:?} position {}", hex(&data), g, st.pos);
        let vals: Vec<_> = g.vals.into_iter().flatten().collect();
        let mut out = stream(&s.w, "out", &[]);
        let put = real_write(&zoos[zi].1, &p.msgs[..vals.len()], &vals, &mut out);
        o += &format!("\nwrite {put:?} {}", hex(&out.data));
    });
    if let Err(m) = r {
        o += &format!("\npanic {m}");
    }
    let mut h = 0xcbf29ce484222325u64;
    for b in o.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    (h, o)
}
