#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run after editing)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), na=None, note=None, tech=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None),
                  _na=na, _note=note, _tech=tech))

READ = ["src/reader.rs", "src/lib.rs", "src/impls/", "deku-derive/src/macros/deku_read.rs"]
WRITE = ["src/writer.rs", "src/lib.rs", "src/impls/", "deku-derive/src/macros/deku_write.rs"]

prop("C01", "Messages survive a relay chain: what arrives is exactly what was sent",
     "When a party writes a sequence of representable messages to a connection and any number of relays read and write them again, every party receives exactly the sent values in order, and with formats whose encoding is a function of the value every link carries the same bytes. When a link breaks or a party vanishes, each receiver holds a prefix of what was sent and an error instead of the rest; messages whose bytes arrived completely are not lost.",
     ["schedules", "fault_sequences", "inputs", "programs"],
     "every message type built from the documented attributes, every sequence of representable values, every scheduling of the parties, every split of the bytes into transfers, every point where a link breaks or a party stops",
     "Unit tests convert single hard-coded values in memory in one call; no test connects a writer and a reader over a stream that moves bytes in pieces, and none breaks it.",
     READ + WRITE,
     [("field by field reader", "deku-derive/src/macros/deku_read.rs"), ("mirrored writer", "deku-derive/src/macros/deku_write.rs"), ("bit buffer carried between fields", "src/reader.rs, src/writer.rs")],
     ["values returned by each party's reads", "bytes carried by each link"],
     [("unfinished byte", "bits read or written that do not fill a byte yet", "src/reader.rs Leftover, src/writer.rs leftover")])

prop("C02", "The result of reading depends only on the bytes, not on how they arrive",
     "Reading a message gives the value (or the kind of error) that the documented meaning of the type's attributes assigns to the bytes, whatever the sizes of the pieces the stream delivers, however often it is interrupted, and whichever entry point is used: a stream, a non-seekable stream, a reader shared by several messages, a byte slice with a bit offset, or an exact-length conversion. Invalid bytes are rejected with the error kind of the first check that fails.",
     ["schedules", "inputs", "programs"],
     "every message type, every byte sequence valid or corrupted, every delivery (short reads, interruptions, latency) and every entry point",
     "The tests read small constant arrays from in-memory cursors that deliver everything at once, one entry point at a time.",
     READ, [("bit and byte level reads", "src/reader.rs"), ("entry points", "src/lib.rs, deku-derive/src/macros/deku_read.rs")],
     ["value or error of every entry point"])

prop("C03", "An I/O error while reading is reported, never turned into a value",
     "If the stream fails with an I/O error before the bytes a message needs have been delivered, reading that message returns an I/O error of the same kind; messages read before the failure are unaffected. No value is ever produced from bytes that were not delivered; only a stream that is known to be too short anyway, or bytes that are invalid on their own, may be reported as such instead.",
     ["fault_sequences", "inputs", "programs"],
     "every message type, every error kind, every byte position of the failure, every delivery before it",
     "No test uses a stream that fails with anything but end of file.",
     READ, [("error mapping of every stream read", "src/reader.rs"), ("error propagation between fields", "deku-derive/src/macros/deku_read.rs")],
     ["result of the read", "whether the injected failure was hit"])

prop("C04", "A stream that ends early yields an Incomplete error with a positive size hint",
     "If a stream ends before the bytes a valid message needs, reading returns an Incomplete error asking for at least one more bit or byte, and never a value, except for parts that by definition extend to the end of the stream. Messages that arrived completely before the end are still returned.",
     ["fault_sequences", "inputs", "programs"],
     "every valid message sequence, every byte at which the stream ends, every delivery",
     "Tests truncate a handful of fixed inputs of primitive types.",
     READ, [("UnexpectedEof handling", "src/reader.rs"), ("remaining-size check of bulk reads", "src/impls/vec.rs"), ("NeedSize", "src/error.rs")],
     ["result of the read and its size hint"])

prop("C05", "Reading a message consumes exactly its own bytes and never waits for more",
     "Once all bytes of a message have arrived the read completes without asking the stream for another byte, so two parties that answer each other's messages over one connection never dead-lock. Nothing behind the message is taken from the stream: whoever continues on the same stream finds the following data untouched. (Parts that extend to the end of the stream, and seeking formats, are excluded.)",
     ["schedules", "inputs", "programs"],
     "every message type and value, every request/response conversation, every pipe capacity, transfer size, latency and scheduling",
     "In-memory cursors never block, so over-reading is invisible to the tests.",
     READ, [("reads sized by the field", "src/reader.rs"), ("end() look-ahead of one byte that is handed back", "src/reader.rs")],
     ["bytes taken from the stream", "progress of both parties"])

prop("C06", "Positions and bit counts always match the bits actually consumed or produced",
     "After every message the reported number of consumed or produced bits, the remaining slice and bit offset returned by slice parsing, and the positions visible to the format's own expressions equal the true position in the message stream. Parsing can be continued from the returned rest and offset any number of times.",
     ["histories", "inputs", "programs", "schedules"],
     "every sequence of messages (aligned or not) through one reader, one writer or chained slice parsing, at every starting bit offset and under every delivery",
     "Tests check positions after one or two reads of fixed types.",
     READ + WRITE, [("bits_read / bits_written", "src/reader.rs, src/writer.rs"), ("from_bytes rest computation", "src/lib.rs, deku-derive/src/macros/deku_read.rs")],
     ["bit counters", "rest and offset of slice parsing", "byte_offset / bit_offset in expressions"])

prop("C07", "Written bytes depend only on the values, not on the sink or the entry point",
     "Writing values produces exactly the bytes the documented attribute semantics assign to them, whatever amounts the sink accepts per call, however often it is interrupted, and whichever entry point is used: a stream, a non-seekable stream, a byte vector, a bit vector, a caller's slice or a conversion. Values the format cannot represent are refused with an error instead of being written in a damaged form, and a caller's slice is not touched behind the reported length.",
     ["schedules", "inputs", "programs"],
     "every message type, every value (decoded or edited by the user), every sink behaviour and every entry point",
     "The tests write small constant values into vectors that accept everything at once.",
     WRITE, [("bit and byte level writes", "src/writer.rs"), ("entry points", "src/lib.rs, deku-derive/src/macros/deku_write.rs")],
     ["bytes in the sink", "result of every entry point"])

prop("C08", "When a sink fails, the error is reported and the sink holds an exact prefix",
     "If the sink refuses bytes (I/O error, full device, zero-length write, slice too small), writing or the final flush returns an I/O error of that kind and never reports success. What the sink accepted until then is exactly the beginning of the correct output: nothing is duplicated, skipped or written after the failure.",
     ["fault_sequences", "inputs", "programs"],
     "every message type and value, every failing byte, every error kind, every partial acceptance before it",
     "No test uses a sink that fails, apart from a slice that is too small.",
     WRITE, [("write_all calls and their error mapping", "src/writer.rs")],
     ["result of write and finalize", "bytes the sink accepted"])

prop("C09", "A failed read or write leaves nothing behind that would spoil a retry",
     "After a transient stream or sink failure, repeating the session from its start, or (for seekable streams) the failed message from its recorded position with a fresh reader, gives the same result as if the failure had never happened. Values that were already decoded, and values whose writing failed, are unchanged.",
     ["fault_sequences", "histories", "inputs", "programs"],
     "every message sequence, every position and number of transient failures, every retry point",
     "No test retries anything.",
     READ + WRITE, [("no state outside reader and writer", "src/reader.rs, src/writer.rs"), ("values built only when complete", "deku-derive/src/macros/deku_read.rs")],
     ["result of the retry", "values held from before"])

prop("C10", "Hostile input cannot crash, hang or exhaust the reader",
     "Reading arbitrary bytes as any message type returns a value or an error: it never panics, overflows, aborts or loops forever. Memory and the number of stream operations are bounded by the data actually delivered, not by lengths the data claims.",
     ["inputs", "programs", "fault_sequences"],
     "every byte sequence, in particular hostile lengths, counts, sizes, ids, offsets and seeks, for every message type, over streams of any length and delivery",
     "Tests use hand-picked inputs; overflow and memory use depend on values no test supplies.",
     READ + ["src/ctx.rs"], [("checked arithmetic on sizes", "src/reader.rs, deku-derive/src/macros/mod.rs"), ("bounded initial capacity", "src/impls/"), ("remaining-size check of bulk reads", "src/impls/vec.rs")],
     ["termination of the read", "peak memory", "number of stream calls"])

prop("C11", "Everything constructed while reading is dropped exactly once and freed",
     "Whether a read succeeds, fails at any point, or is unwound by a panic of the stream or of an element's own reader, every element constructed so far is dropped exactly once and every byte allocated by the read is freed once its results are dropped.",
     ["fault_sequences", "inputs", "programs"],
     "every container of elements (arrays, vectors, boxed and shared slices, options, nested types), every failing or panicking element or byte",
     "Tests check one array type with one failing index; miri is not part of the suite.",
     ["src/impls/slice.rs", "src/impls/vec.rs", "src/impls/boxed.rs", "src/impls/arc.rs", "deku-derive/src/macros/deku_read.rs"],
     [("guard over partially initialised arrays", "src/impls/slice.rs"), ("owned collections", "src/impls/")],
     ["constructions and drops per element", "live memory before and after"],
     [("partially initialised array", "elements read so far", "src/impls/slice.rs")])

prop("C12", "Enum dispatch is exact and stable in both directions",
     "An enum's id selects exactly the first variant whose id, pattern or discriminant matches, falls back only to a declared default, and is rejected otherwise; only the chosen variant's fields are read. Writing a variant emits exactly the id that selects it again (stored ids are written back as stored), and asking a value for its id gives the same answer or says that the variant has none.",
     ["inputs", "programs", "schedules"],
     "every enum definition (integer, byte-string, boolean, pattern, wildcard, discriminant and context ids, any width, sign and byte order), every id value on the wire, every delivery",
     "Tests sample a few ids of a few hand-written enums.",
     ["deku-derive/src/macros/deku_read.rs", "deku-derive/src/macros/deku_write.rs", "deku-derive/src/lib.rs"],
     [("generated match on the id", "deku-derive/src/macros/deku_read.rs"), ("generated id writing and deku_id", "deku-derive/src/macros/deku_write.rs")],
     ["chosen variant", "bytes written", "deku_id()"])

prop("C13", "Containers stop exactly at their declared limit",
     "A container read by element count, by size in bits or bytes, until a predicate, or to the end of the stream holds exactly the elements that limit describes and consumes exactly their bits; a stream that ends or fails in the middle of an element is an error, not a shorter container. Zero counts and zero sizes consume nothing.",
     ["inputs", "fault_sequences", "programs", "schedules"],
     "every container type (vectors, boxed and shared slices, maps, sets, strings, byte blocks), every element type including bit-sized ones, every limit value, aligned or not, every delivery and stream end",
     "Tests cover a few element types with constant limits on complete input.",
     ["src/impls/vec.rs", "src/impls/hashmap.rs", "src/impls/hashset.rs", "src/impls/boxed.rs", "src/impls/arc.rs", "src/ctx.rs"],
     [("limit predicates", "src/impls/vec.rs"), ("end of stream detection", "src/reader.rs end()"), ("Limit", "src/ctx.rs")],
     ["elements of the container", "bits consumed"])

prop("C14", "The no-seek adapter behaves like the stream it wraps",
     "Wrapping a non-seekable reader or writer in the no-seek adapter passes all data through unchanged, reports the position truthfully after every successful, short, interrupted or failed call, moves forward by consuming exactly the skipped bytes, and refuses every movement it cannot do with an error without losing its position. Messages read or written through it behave as on a seekable stream.",
     ["histories", "fault_sequences", "inputs"],
     "every history of reads, writes, flushes and seeks over a stream with short transfers, interruptions, errors and an early end",
     "Tests make a handful of calls over in-memory data without failures.",
     ["src/noseek.rs"], [("position counting", "src/noseek.rs"), ("forward seek by reading", "src/noseek.rs")],
     ["data", "reported position", "position of the wrapped stream"],
     [("current position", "bytes moved so far", "src/noseek.rs cur_pos")])

prop("C15", "Seeks go exactly where the attribute says, or the operation fails",
     "A seek attribute moves the stream to the documented place (relative to start, current logical position or end) before the field or message is processed, on reading and on writing, and everything written elsewhere stays as it was. If the stream refuses the seek, or the target lies before its start, the operation returns that I/O error and nothing is decoded from, or written to, the wrong place.",
     ["inputs", "fault_sequences", "programs", "schedules"],
     "every seeking format, every offset value including those taken from the data, every prior content, every refusing or non-seekable stream",
     "Tests use constant offsets on cursors that never refuse.",
     READ + WRITE, [("generated seeks", "deku-derive/src/macros/deku_read.rs, deku_write.rs"), ("seek with pending look-ahead byte", "src/reader.rs")],
     ["value", "bytes of the sink", "error kind"])

prop("C16", "The declared size of a type is enough, and exactly what fixed formats need",
     "The size a type declares in bits equals the size of every message for fixed formats and bounds it for enums; it is available in bytes exactly when it is a whole number of bytes. A sink or buffer of exactly the declared size therefore accepts every value of the type, and one byte less is refused for fixed formats.",
     ["inputs", "programs", "fault_sequences"],
     "every type that derives the size, every value, every sink behaviour, sinks of exactly the declared capacity and one byte less",
     "Tests compare constants of some types with a hand-computed number, never with what is written.",
     ["deku-derive/src/macros/deku_size.rs", "src/lib.rs", "src/impls/"], [("generated size constants", "deku-derive/src/macros/deku_size.rs"), ("sizes of built-in types", "src/impls/")],
     ["declared size", "bits written", "capacity needed"])

prop("C17", "All feature configurations produce and accept the same bytes",
     "For message types that a feature configuration supports, reading and writing give the same values, the same bytes, the same positions and the same kinds of errors in every configuration (with and without bit-level support, standard library, logging, descriptive errors), under the same delivery and faults.",
     ["configurations", "inputs", "programs", "fault_sequences"],
     "every supported feature combination, every message type they have in common, every byte sequence, delivery and failure",
     "The test suite runs in each configuration separately and never compares them; many tests are compiled out.",
     ["Cargo.toml", "src/reader.rs", "src/writer.rs", "src/impls/", "src/error.rs", "deku-derive/src/macros/"],
     [("cfg(feature) variants of the same operation", "src/reader.rs, src/writer.rs, src/impls/primitive.rs")],
     ["digest of every outcome per configuration"])

prop("C18", "Bit-level reads and writes behave like one bit string over any stream",
     "Any history of bit, byte, skip and end-check calls on a reader returns the bits a plain bit string would give, with positions and remaining bits to match; any history of bit and byte writes and a final flush produces that bit string padded with zeros to a byte. Stream failures and early ends surface as errors at the call that hits them.",
     ["histories", "fault_sequences", "inputs", "schedules"],
     "every history of calls with every size and bit order, over every delivery, every failing byte and every stream length",
     "Tests make two to five calls on constant data with streams that never fail or split.",
     ["src/reader.rs", "src/writer.rs"], [("leftover bits", "src/reader.rs, src/writer.rs"), ("whole-byte fast paths", "src/reader.rs, src/writer.rs")],
     ["returned bits and bytes", "bits_read / bits_written", "rest()", "sink bytes"],
     [("leftover", "bits of an unfinished byte, or a byte looked ahead", "src/reader.rs Leftover")])

prop("C19", "update() makes dependent fields consistent after any history of edits",
     "After any sequence of edits by the user, updating a value sets every field with an update expression to that expression's current value and changes nothing else; updating again changes nothing. If the new value does not fit the field, an error is returned. A value that was updated, sent and received is received as it was sent whenever the format can represent it.",
     ["histories", "inputs", "programs"],
     "every type with update expressions, every history of edits, updates, failed transmissions and transmissions",
     "Tests update one value once.",
     ["deku-derive/src/macros/deku_write.rs", "src/lib.rs"], [("generated update()", "deku-derive/src/macros/deku_write.rs")],
     ["the value after update", "the received value"])

prop("C20", "A log of messages is recoverable after any crash",
     "When messages are appended to a file that is synced now and then, and the machine crashes so that only a (possibly torn) prefix of the unsynced bytes survives, reading the file back yields every synced message intact and in order, then possibly further complete messages, and then reports Incomplete at the torn one; the position reported there allows the log to be cut and continued, over any number of crashes.",
     ["crash_points", "fault_sequences", "histories", "programs"],
     "every record type, every history of appends, syncs, full disks and crashes, every surviving prefix",
     "No test writes to anything that loses data.",
     READ + WRITE, [("finalize()", "src/writer.rs"), ("Incomplete", "src/reader.rs"), ("reported position", "src/reader.rs bits_read")],
     ["records recovered after each crash", "end position"])

prop("C21", "Magic values, assertions and maps reject or convert exactly what they say",
     "A message is accepted only if every magic sequence, assertion and map on its way holds for the bytes; otherwise reading fails with the documented kind of error at the first one that does not, and fields behind it are not read. Writing emits the magic sequences, refuses values that violate an assertion before any byte of that field is written, and applies the declared conversions.",
     ["inputs", "programs", "schedules"],
     "every type with magic, assertions, conditions, defaults, maps and custom readers or writers, every corrupted byte, every edited value, every delivery",
     "Tests use one good and one bad constant per attribute.",
     ["deku-derive/src/macros/deku_read.rs", "deku-derive/src/macros/deku_write.rs"],
     [("generated checks", "deku-derive/src/macros/deku_read.rs, deku_write.rs")],
     ["value or kind of error", "bytes consumed before the rejection", "bytes written"])

prop("C22", "Sessions do not influence each other",
     "Any number of reading and writing sessions that are interleaved at their I/O calls, on different threads, or started from within each other's streams, each give the result they give alone. Nothing is shared between readers, writers or values of different sessions.",
     ["schedules", "histories", "programs"],
     "every set of sessions of equal or different types, every interleaving at I/O calls, every nesting",
     "Tests run one session at a time.",
     ["src/reader.rs", "src/writer.rs", "src/lib.rs", "deku-derive/src/macros/"], [("all state lives in the reader, the writer and the value", "src/reader.rs, src/writer.rs")],
     ["result of every session"])

prop("C23", "Invalid attribute combinations are rejected at compile time",
     "A type definition with contradictory, misplaced or malformed attributes does not compile and names the offending attribute; a definition that compiles has the documented meaning.",
     ["programs"],
     "every type definition with deku attributes",
     "The compile-fail tests list some twenty definitions.",
     ["deku-derive/src/lib.rs", "deku-derive/src/macros/mod.rs"], [("attribute validation", "deku-derive/src/lib.rs")], ["compiler output"],
     na="Decided by the compiler on a program text: no schedule, time, I/O, fault or party is involved, and a simulated run can only start once a definition has compiled. (That definitions which compile mean what is documented is part of C02 and C07.)")
prop("C24", "The library builds and links without an operating system",
     "With default features disabled the library needs no operating system, and with alloc disabled no allocator, so it can be used on bare-metal and wasm targets.",
     ["configurations"],
     "every feature combination without std, every such target",
     "The build scripts compile some targets, they do not run there.",
     ["Cargo.toml", "src/lib.rs", "ensure_no_std/", "ensure_wasm/"], [("no_std", "src/lib.rs")], ["build result"],
     na="A property of compiling and linking for a target; there is no execution to simulate, and the targets are not installed here. What those configurations do when they run is C17.")

NOTE = "Seeded search, not enumeration: a clean run is evidence over the explored runs. Trusted: the reference model of the attribute semantics (sim/core/src/model.rs), the simulated streams (sim/core/src/io.rs), rustc."
if __name__ == "__main__":
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    checks, na = [], []
    todo = set(os.environ.get("TODO", "").split())
    for p in P:
        if p["_na"]:
            na.append(dict(property=p["id"], reason=p["_na"]))
        elif p["id"] in todo:
            na.append(dict(property=p["id"], reason="not built yet"))
        else:
            checks.append(dict(property=p["id"], quick_cmd=f"./check.sh {p['id']} quick", thorough_cmd=f"./check.sh {p['id']} thorough",
                               technique=p["_tech"] or "deterministic simulation with fault injection: seeded runs of the real code over simulated streams, compared with a reference model",
                               level="exploration", level_note=p["_note"] or NOTE))
    m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
             notes="No hooks in /repo: the library's Read, Write and Seek traits are the seams. Repairs of defects found are the fix: commits in /repo, listed in known-findings.txt.")
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
