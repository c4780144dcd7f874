//! The checks: which cases they run, and how many.
use crate::{disk, hostile, meta, sched, trackers, wire};
use kit::runner::{CaseFn, Check, Phase};

pub const CASES: &[(&str, CaseFn)] = &[
    ("unknown", meta::c01),
    ("malformed", meta::c02),
    ("handed", sched::c22),
    ("interpreted", sched::c22_interpreted),
    ("said", wire::c23),
    ("wire", wire::c04),
    ("segmentation", wire::c05),
    ("tiling", wire::c12),
    ("hostile", hostile::c06),
    ("slow", hostile::c06_slow),
    ("gates", hostile::c07),
    ("torn", hostile::c07_torn),
    ("forged", meta::c08),
    ("consistency", meta::c09),
    ("vast", meta::c09_vast),
    ("restarts", meta::c10),
    ("corruption", disk::c11),
    ("second", disk::c11_second),
    ("layout", disk::c13),
    ("names", disk::c14),
    ("faults", disk::c17),
    ("crashes", disk::c18),
    ("failing", sched::c15),
    ("long", sched::c15_long),
    ("crowd", sched::c15_crowd),
    ("shunning", sched::c16),
    ("hopeless", sched::c16_all),
    ("together", sched::c21),
    ("posts", trackers::c03),
    ("scripted", trackers::c19),
    ("silent", trackers::c19_silent),
    ("burst", trackers::c19_burst),
    ("reported", trackers::c20),
];

/// Cases run in-process by one of the programs of ../../checks.
const fn unit(name: &'static str, bin: &'static str, quick: u64, thorough: u64) -> Phase {
    Phase { name, bin, cases: (quick, thorough), secs: (25, 900), workers: 8, case_secs: 120 }
}

const fn e2e(name: &'static str, quick: u64, thorough: u64) -> Phase {
    Phase { name, bin: "", cases: (quick, thorough), secs: (60, 900), workers: 8, case_secs: 150 }
}

const INSIDE: &str = "the code under test is compiled from /repo's working tree as a library, by giving the modules of main.rs paths in a generated root; only the main function itself is not run";
const OUTSIDE: &str = "the program is /repo's, unmodified, seen through an LD_PRELOAD library that leads its trackers' and its own port to the loopback, logs its system calls, and injects the faults asked for; what bypasses libc is not seen";
const HONEST: &str = "an honest peer answers what it is asked within the time the program allows (about a second of silence at any point), and speaks the extension protocol";
const ENOUGH: &str = "more than ten peers are reported for a torrent, some of them possibly twice: with fewer the program does not begin to download";
const PEERS: &str = "scripted peers on the loopback, built from a codec of the harness's own";

pub fn checks() -> Vec<Check> {
    let check = |id, rule, assumptions, phases| Check { id, level: "exploration", rule, assumptions, phases };
    vec![
        check("C01", "unknown: downloads of four torrents whose metadata has generated values of any kind besides the known ones. Else a case is 30 to 50 values, or 20 info dictionaries, drawn from a generator of nested values with edge lengths, multi-byte text and extreme integers; each is encoded by the program and by a reference encoder, or encoded by the reference and decoded by the program with other bytes behind it, and compared. Every case counts as non-trivial; distinct by the hash of its encodings.",
            &[INSIDE, OUTSIDE, PEERS, HONEST, ENOUGH, "integers are those that a machine word holds and the program can represent: not the negative ones"],
            vec![e2e("unknown", 60, 2000), unit("encoders", "bencode", 10_000, 100_000), unit("roundtrip", "bencode", 15_000, 100_000), unit("infos", "bencode", 8000, 50_000)]),
        check("C02", "malformed: peers send malformed metadata, extension handshakes or headers of metadata for three torrents, and good ones for a fourth; nothing may come of it. hostile: a case is 40 inputs: valid encodings truncated, spliced, bit-flipped or retyped, announced lengths up to 2^64, nesting to hundreds of thousands of levels, random bytes; each is decoded under an allocation budget in proportion to its length, a processor time limit, and with panics caught. A reference decoder says what is malformed. Non-trivial: some of the inputs are malformed.",
            &[INSIDE, OUTSIDE, PEERS, HONEST, ENOUGH, "a value is only compared where the encoding is canonical; leading zeros in numbers are left open"],
            vec![e2e("malformed", 32, 1500), unit("hostile", "bencode", 8000, 150_000)]),
        check("C03", "magnets: 60 texts per case, valid in all ways the format allows or broken in one, given to the parser and compared with what the generator knows they mean. posts: 40 of them are posted to the running program; the torrents announced to its 18 trackers must be exactly the ones named. Non-trivial: some are taken and some refused.",
            &[INSIDE, OUTSIDE],
            vec![unit("magnets", "magnet", 40_000, 400_000), e2e("posts", 400, 15_000)]),
        check("C04", "a case is a download from one to four honest peers of varied habits of a generated torrent; each byte that reaches a peer is parsed by a monitor of the protocol. Non-trivial: more than five messages were seen.",
            &[OUTSIDE, PEERS, HONEST, ENOUGH],
            vec![e2e("wire", 300, 6000)]),
        check("C05", "framing: a sequence of messages is cut at random into segments with pauses on a loopback connection, read by the program's reader, and compared one by one. segmentation: downloads from peers that cut everything they send. Non-trivial: something was cut.",
            &[INSIDE, OUTSIDE, PEERS, HONEST],
            vec![e2e("segmentation", 200, 4000), unit("framing", "codec", 500, 20_000)]),
        check("C06", "a case is a download with two to five peers that send generated hostile bytes at the handshake, after it, or in answer to requests, most with honest peers besides; watched are panics, the process, its peak memory, how much of a flood it takes, that it hangs up in the end, and that the download completes. Non-trivial: more connections were made than there are hostile peers.",
            &[OUTSIDE, PEERS, HONEST, ENOUGH, "bounded memory: 700 MB at the peak"],
            vec![e2e("hostile", 160, 6000), Phase { case_secs: 260, ..e2e("slow", 24, 400) }]),
        check("C07", "a case is a download with one to four peers that hold back one step of the protocol, found before an honest one; what they receive is compared with what they had sent by then. torn: unchokes that come slowly within a message that never ends. Non-trivial: each of them was connected to.",
            &[OUTSIDE, PEERS, HONEST, ENOUGH],
            vec![e2e("gates", 120, 3000), e2e("torn", 8, 200)]),
        check("C08", "a case is one to four peers that give metadata other than the magnet's, in one of fourteen ways, found before honest ones or alone, or that give it later. Non-trivial: a forger was asked for metadata.",
            &[OUTSIDE, PEERS, HONEST, ENOUGH],
            vec![e2e("forged", 120, 3000)]),
        check("C09", "consistency: a case is four torrents at once, two or more with metadata that has the right hash and is inconsistent in one of twenty-two ways, the others consistent and odd. vast: a case is a torrent of up to 80 GB of which peers have the last piece; all pieces are to be asked for, and the last one stored at its place. Non-trivial: the metadata of one to be refused was fetched; more than 4 GiB.",
            &[OUTSIDE, PEERS, HONEST, ENOUGH],
            vec![e2e("consistency", 100, 3000), e2e("vast", 40, 600)]),
        check("C10", "a case is a download, the end of the program, a damage to the saved metadata or none, and a second run of the same folder, and a third if metadata had to be fetched again. Every case counts as non-trivial.",
            &[OUTSIDE, PEERS, HONEST, ENOUGH],
            vec![e2e("restarts", 100, 3000)]),
        check("C11", "a case is a download with one to three peers that falsify content or blocks in one of twenty ways, with or without an honest one; each write to a torrent's files is compared with the right content at its place. second: before it, another torrent of the same shape, or the same torrent, is downloaded from honest peers. Non-trivial: a wrong block was given to the program.",
            &[OUTSIDE, PEERS, HONEST, ENOUGH],
            vec![e2e("corruption", 400, 8000), e2e("second", 120, 3000)]),
        check("C12", "a case is a download of a torrent with generated piece length and size, one in forty with pieces of 32 MiB; the requests of each connection for each piece are put together. far: single pieces of torrents of up to 130,000 of them are downloaded in-process. Non-trivial: all pieces were asked for as a whole; distinct by piece length and size.",
            &[INSIDE, OUTSIDE, PEERS, HONEST, ENOUGH],
            vec![e2e("tiling", 300, 6000), unit("far", "fetch", 400, 20_000)]),
        check("C13", "layout: downloads of torrents of up to 600 files, pieces coming late and out of order; at the end all files are compared. pieces: the program's writer is given the pieces of generated layouts, beyond 4 GiB too, in random order. Non-trivial: more than one piece or file.",
            &[INSIDE, OUTSIDE, PEERS, HONEST, ENOUGH],
            vec![e2e("layout", 160, 4000), unit("pieces", "layout", 8000, 300_000)]),
        check("C14", "a case is three torrents with a hostile name or path component and one with an odd but harmless one; each system call that changes the file system is resolved and those that lead outside are stopped and logged. Non-trivial: the metadata of one with a hostile name was fetched.",
            &[OUTSIDE, PEERS, HONEST, ENOUGH],
            vec![e2e("names", 80, 2000)]),
        check("C15", "a case is a download with one to four peers that fail in one of twelve ways at points given by one of nine rules, and one or two honest ones. long: hundreds of blocks in a piece, or pieces of metadata, from peers that take their time, or send other messages with each. crowd: up to 120 peers that fail, at all pieces or the last, and honest ones that are found after them. Non-trivial: a failing peer was connected to, or one of the latter two.",
            &[OUTSIDE, PEERS, HONEST, ENOUGH],
            vec![e2e("failing", 120, 3000), e2e("long", 8, 160), e2e("crowd", 80, 3000)]),
        check("C16", "shunning: a download of 50 to 80 pieces with two peers whose attempts all fail and an honest one; attempts at the failing ones are counted. hopeless: only failing peers; connections at once, and whether it goes on. Non-trivial: a failing peer was tried.",
            &[OUTSIDE, PEERS, HONEST, ENOUGH, "a small fixed number is nine: four failures, and up to five attempts under way"],
            vec![e2e("shunning", 80, 2000), e2e("hopeless", 24, 500)]),
        check("C17", "a case is a download during which writes are cut short, interrupted or fail, or opening or creating does, by rules over which call it is; or one file fails for good. Non-trivial: a fault was met.",
            &[OUTSIDE, PEERS, HONEST, ENOUGH, "an error that goes away does so before the same operation was tried five times within half a second"],
            vec![e2e("faults", 120, 3000)]),
        Check { id: "C18", level: "fault_enumeration",
            rule: "a case is a small torrent; each file-system change of its download is a crash point, before, within and after which the program is killed in a run of its own, then started again in what is left. Non-trivial: more kills than there are changes.",
            assumptions: &[OUTSIDE, PEERS, HONEST, ENOUGH, "a crash is that of the process: what it wrote is in the file system"],
            phases: vec![e2e("crashes", 24, 400)] },
        check("C19", "scripted: one to three torrents, eighteen trackers that lose, delay, repeat, forge, lengthen or cut their answers by script, peers compared with the connections tried; silent: trackers that never answer are given up; burst: many torrents at once. Non-trivial: something of that happened.",
            &[OUTSIDE],
            vec![e2e("scripted", 80, 3000), e2e("silent", 8, 100), e2e("burst", 16, 400)]),
        check("C20", "announces: announces to a scripted HTTP server with generated hashes, URLs and answers; the request line is decoded and the peers returned are compared. reported: the program with its trackers' scheme replaced, among eighteen scripted HTTP servers; their requests are decoded, the peers contacted compared with those listed, a torrent whose peers they list is completed. Non-trivial: a response was judged.",
            &[INSIDE, OUTSIDE, "no tracker the program knows speaks HTTP, so the code is called in-process, and the whole program is compiled from a copy of the sources in which udp:// is replaced by http://"],
            vec![e2e("reported", 100, 3000), unit("announces", "httptracker", 2500, 40_000)]),
        check("C21", "a case is two to four torrents, some of which cannot make progress, added to one program; handshakes, requests, files and answers of the API are attributed to torrents. Every case counts as non-trivial.",
            &[OUTSIDE, PEERS, HONEST, ENOUGH],
            vec![e2e("together", 300, 6000)]),
        check("C22", "handed: in downloads of up to 400 pieces, each is worked on by one connection, and by one more if it failed. alone: the pool is compared with a queue, step by step. together: two to eight threads take and put back; the history, with the times of each call, is checked for loss, duplicates, order and emptiness. interpreted: the pool alone, taken from and put back to by threads in the interpreter Miri, under 48 schedules each: undefined behaviour, races, deadlocks, and pieces had other than as often as due. Non-trivial: operations of different threads overlapped.",
            &[INSIDE, OUTSIDE, PEERS, HONEST, ENOUGH],
            vec![e2e("handed", 60, 2000), unit("alone", "pool", 3000, 100_000), unit("together", "pool", 4000, 60_000), Phase { workers: 1, secs: (40, 600), ..e2e("interpreted", 6, 200) }]),
        check("C23", "said: downloads from peers that take every message apart, and send theirs in many forms. parse: 60 message bodies of all ids, valid or altered, compared with a reference parser; serialise: 40 of the messages the program sends, compared with a reference serialiser and parsed again. Non-trivial: a body was parsed to fields.",
            &[INSIDE, OUTSIDE, PEERS, HONEST, ENOUGH],
            vec![e2e("said", 80, 2000), unit("parse", "codec", 60_000, 600_000), unit("serialise", "codec", 20_000, 200_000)]),
    ]
}
