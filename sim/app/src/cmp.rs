//! Sanity comparison of every generated type with the model on valid input.
use dcore::io::*;
use dcore::model::*;
use dcore::support::*;
use dcore::tape::Tape;
use dgen::schema::*;

pub fn compare(z: &Zoo, ops: &[Ops], args: &[String]) {
    let runs: u64 = args.first().and_then(|s| s.parse().ok()).unwrap_or(20);
    let only: Option<usize> = args.get(1).and_then(|s| s.parse().ok());
    let mut bad: std::collections::BTreeMap<usize, (u64, String)> = Default::default();
    let (mut n, mut lim) = (0u64, 0u64);
    for d in &z.defs {
        if only.is_some() && only != Some(d.idx) { continue; }
        for s in 0..runs {
            let mut t = Tape::seeded(s * 1000 + d.idx as u64);
            let leaf = Leaf { en: if t.draw(2, "e") == 0 { En::Le } else { En::Be }, or: if t.draw(2, "o") == 0 { Or::Msb } else { Or::Lsb }, bits: None, bytes: None };
            let cn = t.draw(4, "n") as i64;
            let ctx = Ctx {
                endian: if leaf.en == En::Le { deku::ctx::Endian::Little } else { deku::ctx::Endian::Big },
                order: if leaf.or == Or::Msb { deku::ctx::Order::Msb0 } else { deku::ctx::Order::Lsb0 },
                n: cn as u8,
            };
            let mut g = Dec::gen(z, &mut t, 6);
            let r = g.def(d.idx, &leaf, Some(cn));
            if r == Err(ErrC::Limit) { lim += 1; continue; }
            let bytes = g.data.clone();
            let mut m = Dec::bytes(z, &bytes, Tail::Eof);
            let mr = m.def(d.idx, &leaf, Some(cn));
            n += 1;
            let w = world(Tape::fixed(vec![]), false);
            let mut st = stream(&w, "in", &bytes);
            let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let mut rd = deku::reader::Reader::new(Io(&mut st));
                let v = (ops[d.idx].read)(&mut rd, ctx);
                (v, rd.bits_read as u64)
            }));
            let mut why = String::new();
            match res {
                Err(_) => why = format!("panic; model {mr:?}"),
                Ok((v, bits)) => {
                    let rv = v.as_ref().map_err(errc).cloned();
                    if rv != mr { why = format!("read: real {v:?}\n   model {mr:?}"); }
                    else if rv.is_ok() && bits != m.bits { why = format!("bits real {bits} model {}", m.bits); }
                    else if let Ok(v) = &rv {
                        let mut e = Enc::new(z);
                        let er = e.def(d.idx, v, &leaf, Some(cn));
                        e.finalize();
                        let mut st = stream(&w, "out", &[]);
                        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            let mut wr = deku::writer::Writer::new(Io(&mut st));
                            let r = (ops[d.idx].write)(&mut wr, v, ctx);
                            let r = r.and_then(|_| wr.finalize());
                            (r, wr.bits_written as u64)
                        }));
                        match res {
                            Err(_) => why = format!("write panic; model {er:?}"),
                            Ok((r, bw)) => {
                                if r.as_ref().map_err(errc).copied() != er { why = format!("write: real {r:?} model {er:?}"); }
                                else if er.is_ok() && st.data != e.out && !d.unordered { why = format!("wrote {:x?}\n model {:x?}\n input {:x?}\n {v:?}", st.data, e.out, bytes); }
                                else if er.is_ok() && d.canonical && !d.unordered && e.out.len() as u64 * 8 != (m.bits + 7) / 8 * 8 { why = format!("noncanonical {:x?} vs {:x?}", e.out, bytes); }
                                else if er.is_ok() && !d.unordered && bw != e.out.len() as u64 * 8 && !d.seeky { why = format!("bits written {bw} model {}", e.bits); }
                            }
                        }
                    }
                }
            }
            if !why.is_empty() {
                let e = bad.entry(d.idx).or_insert((0, format!("seed {s}: bytes {bytes:x?} ctx {ctx:?}\n  {why}")));
                e.0 += 1;
            }
        }
    }
    for (i, (c, w)) in &bad {
        println!("== T{i} [{}] bad {c}/{runs}: {w}\n{}", z.defs[*i].tag, gen_print(z, *i));
    }
    println!("{n} runs, {lim} skipped, {} bad types of {}", bad.len(), z.defs.len());
}
fn gen_print(z: &Zoo, i: usize) -> String {
    dgen::emit::def(z, &z.defs[i]).split("impl ToVal").next().unwrap().to_string()
}

