mod alloc;
mod cmp;
mod orch;
#[cfg(all(feature = "bits", feature = "std"))]
mod p_big;
#[cfg(all(feature = "bits", feature = "std"))]
mod p_tunnel;
#[cfg(all(feature = "bits", feature = "std"))]
mod p_api;
#[cfg(all(feature = "bits", feature = "std"))]
mod p_bits;
mod p_feat;
mod p_read;
mod p_sys;
mod p_write;
mod sched;
mod sim;

use dcore::support::Ops;
use dgen::schema::Zoo;
use orch::*;
use std::sync::OnceLock;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

pub fn zoos() -> &'static sim::Zoos {
    static Z: OnceLock<Vec<(Zoo, Vec<Ops>)>> = OnceLock::new();
    Z.get_or_init(|| {
        vec![
            (z0::zoo(), z0::ops()),
            (z1::zoo(), z1::ops()),
            (z2::zoo(), z2::ops()),
            (z3::zoo(), z3::ops()),
            (z4::zoo(), z4::ops()),
            (z5::zoo(), z5::ops()),
        ]
        .into_iter()
        // a configuration without a feature has no types that need it
        .filter(|z: &(Zoo, Vec<Ops>)| !z.0.defs.is_empty())
        .collect()
    })
}

const REAL: &[&str] = &["deku (src/) and its derive macros as built from /repo", "generated message types with deku attributes", "bitvec, std Cursor and collections"];
const STUB: &[&str] = &["byte streams and sinks (simulated)", "allocator wrapper (counts, refuses requests over 1 GiB)"];
const NET: &[&str] = &["pipes between parties, scheduler and clock (simulated)", "byte streams (simulated)"];
const DISK: &[&str] = &["disk with torn and lost writes (simulated)"];

macro_rules! props {
    ($($id:literal, $runs:literal, $f:path, $stub:expr, $rule:literal;)*) => {
        pub const PROPS: &[Prop] = &[$(Prop { id: $id, runs: $runs, f: $f, rule: $rule, real: REAL, stub: $stub }),*];
    };
}
#[cfg(all(feature = "bits", feature = "std"))]
const BITS: fn(&mut sim::Sim) -> sim::Res = p_bits::c_bits;
#[cfg(not(all(feature = "bits", feature = "std")))]
const BITS: fn(&mut sim::Sim) -> sim::Res = |_| Ok(false);

/// one run in some hundred is about long messages
macro_rules! long {
    ($name:ident, $f:path, $mode:ident $(, $t:path)?) => {
        fn $name(s: &mut sim::Sim) -> sim::Res {
            #[cfg(all(feature = "bits", feature = "std"))]
            if s.chance(1, 300, "long") {
                return p_big::bulk(s, p_big::Mode::$mode);
            }
            $(
                #[cfg(all(feature = "bits", feature = "std"))]
                if s.chance(1, 12, "frames") {
                    return $t(s);
                }
            )?
            $f(s)
        }
    };
}
long!(c02, p_read::c_delivery, Read, p_api::by_hand_read);
long!(c03, p_read::c_read_faults, ReadFault, p_tunnel::tunnel_read);
long!(c04, p_read::c_truncation, Truncate);
long!(c06, p_read::c_position, Read);
long!(c07, p_write::c_sink, Write, p_api::by_hand_write);
long!(c08, p_write::c_sink_faults, WriteFault, p_tunnel::tunnel_write);
long!(c10, p_read::c_hostile, Hostile);
long!(c13, p_read::c_container, Read);

props! {
    "C01", 30000, p_sys::c_relay, NET, "A producer, up to two relays and a consumer exchange 1-5 messages of drawn types over simulated pipes under a seeded schedule, with short transfers, interrupts, latency, connection resets and a vanishing producer; a run counts when the messages are representable (the model reproduces them).";
    "C02", 800000, c02, STUB, "1-3 messages of drawn types, a third of the streams corrupted, handed over through a drawn entry point in drawn chunks; a run counts when the model decides the outcome.";
    "C03", 900000, c03, STUB, "The stream fails with a drawn I/O error at a drawn byte; a run counts when the failure was reached.";
    "C04", 600000, c04, STUB, "The stream ends at a drawn byte of a valid message sequence; a run counts when the uncut stream is valid.";
    "C05", 50000, p_sys::c_rpc, NET, "Half the runs: two parties in lockstep over pipes, each waiting for the other's message; half: one stream that ends right behind the messages or continues with foreign bytes. A run counts when all messages are valid.";
    "C06", 400000, c06, STUB, "Positions after every message of 1-4, chained from_bytes, writer accounting; a run counts when the model decides the outcome.";
    "C07", 600000, c07, STUB, "Decoded values with up to two parts replaced by random ones, written twice through drawn entry points and sinks; a run counts when the values exist.";
    "C08", 900000, c08, STUB, "The sink fails at a drawn byte (full, zero-length writes, I/O error, slice too small); a run counts when the failure was reached.";
    "C09", 700000, p_write::c_recovery, STUB, "A stream or sink fails 1-3 times and then works; the session is repeated from the start or from the failed message; a run counts when a failure happened.";
    "C10", 600000, c10, STUB, "Several corruptions, hostile lengths and ids, up to 2000 trailing bytes; every run counts.";
    "C11", 900000, p_read::c_drops, STUB, "Types with drop-counted elements; the stream fails or panics at a drawn byte or an element constructor panics; a run counts when such elements are constructed (or on a quarter of the runs any type).";
    "C12", 600000, p_read::c_enum, STUB, "Types containing enums, a third corrupted; a run counts when the model decides the outcome.";
    "C13", 600000, c13, STUB, "Types containing limited containers, a third corrupted; a run counts when the model decides the outcome.";
    "C14", 1000000, p_sys::c_noseek, STUB, "Half the runs: histories of reads, writes, seeks on NoSeek over a failing stream; half: messages through NoSeek. Every decided run counts.";
    "C15", 2000000, p_read::c_seek, STUB, "Types with seek attributes, over seekable, refusing and non-seekable streams, read and written; a run counts when the model decides the outcome.";
    "C16", 1200000, p_write::c_size, STUB, "Types with DekuSize against sinks of exactly the announced size and one byte less; a run counts when the value can be written.";
    "C17", 400000, p_feat::c_features, STUB, "One of sixteen scenarios (delivery, read faults, truncation, sinks, sink faults, recovery, hostile input, drops, positions, containers, enums, gates, sizes, updates, NoSeek) with types every configuration with these features supports; a run counts when the scenario counts it.";
    "C18", 1500000, BITS, STUB, "Histories of up to 24 bit- and byte-level Reader or Writer calls with failing streams; a run counts with at least two calls.";
    "C19", 1000000, p_write::c_update, STUB, "Histories of edits, updates and transmissions; a run counts with at least one update.";
    "C20", 120000, p_sys::c_log, DISK, "A log of records on a simulated disk with syncs, full disk, crashes with lost and torn writes, and recovery; a run counts with at least one crash and one recovered record.";
    "C21", 600000, p_read::c_gates, STUB, "Types with magic, assertions and maps, half corrupted, values tweaked before writing; a run counts when the model decides the outcome.";
    "C22", 80000, p_sys::c_isolation, NET, "2-4 sessions interleaved at every I/O call by the scheduler or nested inside each other's I/O calls; a run counts with at least two sessions.";
}

fn prop(id: &str) -> &'static Prop {
    PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    })
}

/// formats every record, to nowhere
#[cfg(feature = "logging")]
struct Sink;
#[cfg(feature = "logging")]
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        std::hint::black_box(s);
        Ok(())
    }
}
#[cfg(feature = "logging")]
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        let _ = std::fmt::Write::write_fmt(&mut Sink, *r.args());
    }
    fn flush(&self) {}
}

fn main() {
    #[cfg(feature = "logging")]
    {
        log::set_logger(&Sink).unwrap();
        log::set_max_level(log::LevelFilter::Trace);
    }
    let a: Vec<String> = std::env::args().skip(1).collect();
    let sub = a.first().map(|s| s.as_str()).unwrap_or("");
    if sub == "compare" {
        for (z, o) in zoos() {
            cmp::compare(z, o, &a[1..]);
        }
        return;
    }
    sim::silence_panics();
    let code = match sub {
        "check" => check(prop(&a[1]), zoos(), a.get(2).map_or("quick", |s| s)),
        "worker" => {
            worker(prop(&a[1]), zoos(), &a[2..]);
            0
        }
        "shrink" => {
            shrink_cmd(prop(&a[1]), zoos(), &a[2..]);
            0
        }
        "tape" => tape_cmd(prop(&a[1]), zoos(), &a[2..]),
        "history" => history_cmd(prop(&a[1]), zoos(), &a[2..]),
        "record" => {
            record_cmd(prop(&a[1]), zoos(), &a[2..]);
            0
        }
        "replay" => {
            let r = load_replay(&a[1]);
            replay(prop(&r.prop), zoos(), &r, &a[1], false)
        }
        // ZOO RUNS: one line per run, equal in every configuration that has the types
        "outcomes" => {
            let n: u64 = a[1].parse().unwrap();
            for zi in 0..zoos().len() {
                for i in 0..n {
                    println!("{} {i} {:016x}", zoos()[zi].0.seed, p_feat::outcome(zoos(), zi, i).0);
                }
            }
            0
        }
        "outcome" => {
            let (z, i): (u64, u64) = (a[1].parse().unwrap(), a[2].parse().unwrap());
            let zi = zoos().iter().position(|x| x.0.seed == z).expect("no such set of types");
            println!("{}", p_feat::outcome(zoos(), zi, i).1);
            0
        }
        "props" => {
            for p in PROPS {
                println!("{} {}", p.id, p.runs);
            }
            0
        }
        _ => {
            eprintln!("usage: dsim check PROP quick|thorough | replay FILE | props | compare");
            2
        }
    };
    flush();
    std::process::exit(code);
}
