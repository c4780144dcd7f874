//! What reaches the disk: only what was verified, to its place, and nowhere else; and what becomes of it when storage
//! fails or the program is killed.
use crate::meta::{edit_file, own_names};
use crate::sim::*;
use kit::benc::{self, Val};
use kit::peer::{piece_message, Act, Asked, Ev, Policy, Spec};
use kit::torrent::{self, build, File, Shape, Torrent};
use kit::world::{End, Options, World};
use kit::{hash64, sha1, Ctx, Obs, Rng, Verdict};
use std::collections::{BTreeSet, HashMap, HashSet};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::time::Duration;

// C11

/// The piece, altered so that its hash agrees with the right one in its first or last byte.
fn nearly(t: &Torrent, i: usize, r: &mut Rng) -> Option<Vec<u8>> {
    let right = sha1(t.piece(i));
    let at = *r.pick(&[0, 0, 19, 19, 10]);
    let mut p = t.piece(i).to_vec();
    for _ in 0..4000 {
        let k = r.below(p.len());
        p[k] = r.byte();
        if p != t.piece(i) && sha1(&p)[at] == right[at] {
            return Some(p);
        }
    }
    None
}

/// What a peer makes of the pieces it alters: for some pieces, the bytes it has instead.
fn altered(t: &Torrent, r: &mut Rng) -> (String, HashMap<usize, Vec<u8>>) {
    let n = t.pieces();
    let which: Vec<usize> = match r.below(6) {
        0 => (0..n).collect(),
        1 => vec![n - 1],
        2 => vec![0],
        3 => (0..n).filter(|i| i % 2 == 1).collect(),
        _ => vec![r.below(n), r.below(n)],
    };
    let mut what = String::new();
    let mut out = HashMap::new();
    let kind = r.below(13);
    for i in which {
        let right = t.piece(i).to_vec();
        let mut p = right.clone();
        let (name, p) = match kind {
            0 => {
                p[0] ^= 1 << r.below(8);
                ("its first byte changed", p)
            }
            1 => {
                *p.last_mut().unwrap() ^= 1 << r.below(8);
                ("its last byte changed", p)
            }
            2 => {
                let k = r.below(p.len());
                p[k] ^= 1 << r.below(8);
                ("one bit changed", p)
            }
            3 => {
                // Only in the last block.
                let from = (p.len() - 1) / 16384 * 16384;
                let k = from + r.below(p.len() - from);
                p[k] = !p[k];
                ("a byte of its last block changed", p)
            }
            4 => ("zeros", vec![0; p.len()]),
            5 => {
                let k = (i + 1) % n;
                let mut q = t.piece(k).to_vec();
                q.resize(p.len(), 0);
                ("the next piece", q)
            }
            6 => {
                let k = r.below(p.len());
                p.rotate_left(k.max(1));
                ("its bytes turned around", p)
            }
            7 => {
                p.reverse();
                ("its bytes in reverse order", p)
            }
            8 if p.len() > 16384 => {
                p.chunks_exact_mut(16384).for_each(|c| c.rotate_left(1));
                ("its blocks turned around", p)
            }
            8 | 9 => match nearly(t, i, r) {
                Some(q) => ("a hash that is right in one byte", q),
                None => ("one byte changed", {
                    p[0] ^= 1;
                    p
                }),
            },
            10 => {
                let n = p.len();
                p[n / 2..].fill(0);
                ("its second half zeros", p)
            }
            11 => {
                let k = r.below(p.len());
                let l = r.below(p.len());
                p.swap(k, l);
                ("two bytes exchanged", p)
            }
            _ => ("random bytes", r.bytes(p.len())),
        };
        if p != right {
            what = name.to_string();
            out.insert(i, p);
        }
    }
    if out.is_empty() {
        let mut p = t.piece(n - 1).to_vec();
        p[0] = !p[0];
        out.insert(n - 1, p);
        what = "its first byte inverted".into();
    }
    (format!("{what} in {} of {n} pieces", out.len()), out)
}

/// Gives blocks of altered pieces.
fn corrupt_content(t: &Arc<Torrent>, r: &mut Rng) -> (String, Policy, HashSet<usize>) {
    let (what, bad) = altered(t, r);
    let pieces: HashSet<usize> = bad.keys().copied().collect();
    let p: Policy = Arc::new(move |a: &Asked| match bad.get(&a.index) {
        Some(p) if a.begin + a.length <= p.len() => Act::Raw(piece_message(a.index, a.begin, &p[a.begin..a.begin + a.length])),
        _ => Act::Serve,
    });
    (what, p, pieces)
}

/// Gives the right bytes in wrong blocks.
fn corrupt_framing(t: &Arc<Torrent>, r: &mut Rng) -> (String, Policy) {
    let t = t.clone();
    let n = r.range(1, 40);
    let only_last = r.one_in(2);
    let blocks = move |t: &Torrent, i: usize| t.piece(i).len().div_ceil(16384);
    match r.below(8) {
        0 => (format!("blocks short of their last {n} bytes"), Arc::new(move |a| {
            if only_last && a.begin / 16384 + 1 < blocks(&t, a.index) { Act::Serve } else { Act::Short(a.length.saturating_sub(n)) }
        })),
        1 => ("empty blocks".into(), Arc::new(move |a| {
            if only_last && a.begin / 16384 + 1 < blocks(&t, a.index) { Act::Serve } else { Act::Short(0) }
        })),
        2 => (format!("blocks with {n} bytes more"), Arc::new(move |a| {
            if only_last && a.begin / 16384 + 1 < blocks(&t, a.index) { Act::Serve } else { Act::Long(n) }
        })),
        3 => ("each block twice".into(), Arc::new(move |a| {
            let d = &t.piece(a.index)[a.begin..a.begin + a.length];
            Act::Raw([piece_message(a.index, a.begin, d), piece_message(a.index, a.begin, d)].concat())
        })),
        4 => ("the block of another place of the piece".into(), Arc::new(move |a| {
            let p = t.piece(a.index);
            let other = if a.begin == 0 { p.len().saturating_sub(a.length) } else { 0 };
            if other == a.begin { return Act::Corrupt; }
            Act::Raw(piece_message(a.index, a.begin, &p[other..other + a.length]))
        })),
        5 => ("the block of another piece".into(), Arc::new(move |a| {
            let i = (a.index + 1) % t.pieces();
            match t.piece(i).get(a.begin..a.begin + a.length) {
                Some(d) if t.pieces() > 1 => Act::Raw(piece_message(i, a.begin, d)),
                _ => Act::Corrupt,
            }
        })),
        6 => ("a block that was not asked for before each".into(), Arc::new(move |a| {
            let i = (a.index + 1) % t.pieces();
            let d = t.piece(i).get(..a.length.min(t.piece(i).len())).unwrap_or(&[]).to_vec();
            Act::Before(piece_message(i, 0, &d))
        })),
        _ => ("one block cut and the next longer".into(), Arc::new(move |a| {
            let p = t.piece(a.index);
            let k = n.min(a.length - 1);
            if a.begin == 0 && p.len() > a.length {
                Act::Raw(piece_message(a.index, 0, &p[..a.length - k]))
            } else if a.begin > k {
                Act::Raw(piece_message(a.index, a.begin, &p[a.begin - k..a.begin + a.length - 1]))
            } else {
                Act::Corrupt
            }
        })),
    }
}

pub fn c11(ctx: &mut Ctx) -> Verdict {
    case(|| {
        let t = gen(ctx, &Shape { max_content: 200_000, max_pieces: 12, ..Shape::default() });
        let hopeless = ctx.rng.one_in(3);
        let n = if hopeless { 1 } else { ctx.rng.range(1, 3) };
        let (mut peers, mut what) = (vec![], vec![]);
        let mut never = HashSet::new();
        for _ in 0..n {
            let mut s = Spec::honest_varied(&t, &mut ctx.rng);
            if hopeless || ctx.rng.one_in(2) {
                let (w, p, bad) = corrupt_content(&t, &mut ctx.rng);
                what.push(w);
                s.on_block = p;
                never = bad;
            } else {
                let (w, p) = corrupt_framing(&t, &mut ctx.rng);
                what.push(w);
                s.on_block = p;
            }
            peers.push((s, if hopeless { 12 } else { 4 }));
        }
        if !hopeless {
            for s in honest(ctx, &t, 1) {
                peers.push((s, 11));
            }
        }
        let (mut w, _) = start_many(ctx, vec![(t.clone(), peers)], Options::default())?;
        add(ctx, &w, &t)?;
        let end = if hopeless {
            // Goes on for as long as the pieces are wrong.
            let want = never.len() * 2 + 4;
            let attempts = |w: &World| w.requests().iter().filter(|q| q.4 == 0 && never.contains(&q.3)).count();
            if w.wait(|w| attempts(w) >= want, quiet(ctx), Duration::from_secs(15)) == End::Timeout && attempts(&w) <= never.len() {
                return Err(Verdict::Inconclusive(format!("few attempts at {what:?}: {}", w.summary())));
            }
            Ok(())
        } else {
            completed(ctx, &mut w, &t, &format!("one honest peer, and others that give {what:?}"))
        };
        crashed(&w)?;
        let (writes, bytes) = only_right_bytes(&w, &[t.clone()]).map_err(|v| match v {
            Verdict::Violation(m) => Verdict::Violation(format!("{m}; peers that give {what:?}, {}", t.describe())),
            v => v,
        })?;
        let ev = w.swarm.events();
        let wrong = ev.iter().filter(|e| matches!(e.ev, Ev::Did("corrupted" | "shortened" | "lengthened" | "sent garbage"))).count();
        let mut again = 0;
        if hopeless {
            // Bytes of pieces nobody has: even right ones can not have come from anywhere.
            for e in w.log.of("W").filter(|e| !e.path.starts_with("downloads/") && e.rc > 0) {
                let mut start = 0;
                for f in &t.files {
                    if f.path.join("/") == e.path {
                        let (a, b) = (start + e.a as usize, start + (e.a + e.rc) as usize);
                        if let Some(i) = never.iter().find(|i| **i * t.piece_length < b && a < (**i + 1) * t.piece_length) {
                            return violation(format!("piece {i} was written though every peer has it wrong: {what:?}"));
                        }
                    }
                    start += f.length;
                }
            }
            let mut firsts: HashMap<usize, usize> = HashMap::new();
            for q in w.requests().iter().filter(|q| q.4 == 0 && never.contains(&q.3)) {
                *firsts.entry(q.3).or_default() += 1;
            }
            again = firsts.values().filter(|n| **n > 1).count();
            if again == 0 && w.requests().len() >= t.pieces() {
                return suspect(format!("pieces that were wrong are not requested again: {what:?}; {}", w.summary()));
            }
        }
        end?;
        Ok(Obs::new(hash64(format!("{what:?}{}", ctx.idx).as_bytes()), wrong > 0, format!("{what:?}: {}", t.describe()))
            .count("wrong blocks received", wrong)
            .count("verified writes", writes)
            .count("verified bytes", bytes)
            .count("wrong pieces requested again", again))
    })
}

/// C11 after something was verified: a torrent of the same shape, or the same one, is downloaded from honest peers before.
pub fn c11_second(ctx: &mut Ctx) -> Verdict {
    case(|| {
        let base = torrent::gen(&mut ctx.rng, &Shape { max_content: 60_000, max_pieces: 12, ..Shape::default() });
        let same = ctx.rng.one_in(3);
        let first = Arc::new(own_names(&base, 0));
        let second = if same {
            first.clone()
        } else {
            let r = &mut ctx.rng;
            let mut content = r.bytes(base.content.len());
            if r.one_in(3) {
                // All but one piece are the same.
                let i = r.below(base.pieces());
                let at = i * base.piece_length..(i * base.piece_length + base.piece(i).len());
                let mut c = base.content.clone();
                c[at.clone()].copy_from_slice(&content[at]);
                content = c;
            }
            let u = torrent::build(base.multi, &base.name, base.files.clone(), base.piece_length, content, r.one_in(2));
            Arc::new(own_names(&u, 1))
        };
        let honest_now = Arc::new(AtomicBool::new(true));
        let mut what = vec![];
        let mut falsifier = |t: &Arc<Torrent>, r: &mut Rng, switched: bool| {
            let mut s = Spec::honest_varied(t, r);
            let (w, p, _) = corrupt_content(t, r);
            what.push(w);
            let on = honest_now.clone();
            s.on_block = if switched { Arc::new(move |a| if on.load(Ordering::SeqCst) { Act::Serve } else { p(a) }) } else { p };
            s
        };
        let plans = if same {
            vec![(first.clone(), vec![(falsifier(&first, &mut ctx.rng, true), 6), (falsifier(&first, &mut ctx.rng, true), 6), (Spec::honest(&first), 3)])]
        } else {
            let bad = vec![(falsifier(&second, &mut ctx.rng, false), 5), (falsifier(&second, &mut ctx.rng, false), 5), (Spec::honest(&second), 3)];
            vec![(first.clone(), vec![(Spec::honest(&first), 12)]), (second.clone(), bad)]
        };
        let what = format!("{what:?}, for {}", if same { "the same torrent, once more" } else { "one of the same shape as another before it" });
        let (mut w, _) = start_many(ctx, plans, Options::default())?;
        add(ctx, &w, &first)?;
        completed(ctx, &mut w, &first, "the one before")?;
        if same {
            settle(ctx, &mut w, Duration::from_millis(500));
            for (f, _) in first.expected() {
                let _ = std::fs::remove_file(w.scratch.cwd.join(f));
            }
            honest_now.store(false, Ordering::SeqCst);
        }
        add(ctx, &w, &second)?;
        let end = completed(ctx, &mut w, &second, &what);
        crashed(&w)?;
        let (writes, bytes) = only_right_bytes(&w, &[first.clone(), second.clone()]).map_err(|v| match v {
            Verdict::Violation(m) => Verdict::Violation(format!("{m}; peers that give {what}, {}", second.describe())),
            v => v,
        })?;
        end?;
        let wrong = w.swarm.events().iter().filter(|e| matches!(e.ev, Ev::Did("corrupted" | "shortened" | "lengthened" | "sent garbage"))).count();
        Ok(Obs::new(hash64(format!("{what}{}", ctx.idx).as_bytes()), wrong > 0, format!("{what}: {}", second.describe()))
            .count("wrong blocks received", wrong)
            .count("verified writes", writes)
            .count("verified bytes", bytes))
    })
}

// C13

pub fn c13(ctx: &mut Ctx) -> Verdict {
    case(|| {
        let shape = match ctx.rng.below(4) {
            0 if ctx.rng.one_in(3) => Shape { max_content: 60_000, max_pieces: 30, max_files: 600, empty_files: true },
            0 => Shape { max_content: 3000, max_pieces: 40, max_files: 40, empty_files: true },
            1 => Shape { max_content: 800_000, max_pieces: 60, max_files: 3, empty_files: true },
            _ => Shape { max_files: 20, ..Shape::default() },
        };
        let t = gen(ctx, &shape);
        let n = ctx.rng.range(1, 4);
        let mut specs = honest(ctx, &t, n);
        // Pieces come in another order than they were asked for, and some only at the second attempt.
        let seed = ctx.rng.u64();
        for s in &mut specs {
            s.on_block = Arc::new(move |a: &Asked| {
                let mut r = Rng::new(seed ^ hash64(format!("{a:?}").as_bytes()));
                match r.below(40) {
                    0..=4 => Act::Late(r.below(60) as u64),
                    5 => Act::Corrupt,
                    6 => Act::Disconnect,
                    _ => Act::Serve,
                }
            });
        }
        let delay = if ctx.rng.one_in(2) { format!("{}:3000", seed) } else { String::new() };
        let mut w = start(ctx, &t, specs, Options { delay, ..Options::default() })?;
        completed(ctx, &mut w, &t, "honest peers")?;
        // Whatever comes after that changes nothing.
        settle(ctx, &mut w, Duration::from_millis(700));
        crashed(&w)?;
        if let Some(d) = w.differs(&t) {
            return violation(format!("after the download was complete, {d}; {}", t.describe()));
        }
        let files = no_other_files(&w, &[t.clone()])?;
        only_right_bytes(&w, &[t.clone()])?;
        let spans = (0..t.pieces())
            .filter(|i| (0..t.files.len()).filter(|f| t.pieces_of_file(*f).contains(i)).count() > 1)
            .count();
        let empty = t.files.iter().filter(|f| f.length == 0).count();
        Ok(Obs::new(hash64(&t.hash), t.files.len() > 1 || t.pieces() > 1, t.describe())
            .count("files compared", files)
            .count("pieces that span files", spans)
            .count("empty files", empty))
    })
}

// C14

fn outlandish(r: &mut Rng, cwd_up: &str) -> Vec<u8> {
    let up = "../".repeat(r.range(1, 9));
    match r.below(22) {
        0 | 1 => b"..".to_vec(),
        2 => b".".to_vec(),
        3 => vec![],
        4 => format!("{up}evil").into_bytes(),
        5 => format!("a/{up}evil").into_bytes(),
        6 => format!("{cwd_up}/evil").into_bytes(),
        7 => b"/tmp/rbv-evil".to_vec(),
        8 => b"/".to_vec(),
        9 => b"a/b".to_vec(),
        10 => b"../".to_vec(),
        11 => b"/..".to_vec(),
        12 => b"..\0".to_vec(),
        13 => b"a\0b".to_vec(),
        14 => b"\0".to_vec(),
        15 => b"./../evil".to_vec(),
        16 => b"//evil".to_vec(),
        17 => vec![b'x'; 300],
        18 => "../".repeat(1500).into_bytes(),
        19 => b"..\xff/..".to_vec(),
        20 => b"\xff\xfe".to_vec(),
        _ => b"../run/../evil".to_vec(),
    }
}

const ODD: [&str; 20] = [
    "..hidden", "a..b", "...", "....", " ", "-rf", "%2e%2e", "*", "?", "a\\b", "..\\..\\x", "~", "con", "\u{202e}x", "．．",
    "x\n", "$HOME", "'; ls", ". .", "..;",
];

pub fn c14(ctx: &mut Ctx) -> Verdict {
    case(|| {
        let (mut plans, mut bad, mut good) = (vec![], vec![], vec![]);
        // The folder is known only later: what an absolute name leads to is any place that exists.
        let scratch = kit::world::scratch_base().display().to_string();
        for i in 0..4 {
            let base = torrent::gen(&mut ctx.rng, &Shape { max_content: 20_000, max_pieces: 6, max_files: 5, empty_files: true });
            let mut t = own_names(&base, i);
            let r = &mut ctx.rng;
            if i < 3 {
                let evil = outlandish(r, &scratch);
                let (k, at, keep) = (r.below(t.files.len()), r.below(3), r.below(4));
                let single = !t.multi;
                t = if single || keep == 0 {
                    t.rebuilt(|v| v.set("name", benc::bytes(&evil)))
                } else {
                    let path: Vec<Val> = match at {
                        0 => vec![benc::bytes(&evil), benc::bytes("x")],
                        1 => vec![benc::bytes("d"), benc::bytes(&evil), benc::bytes("x")],
                        _ => vec![benc::bytes("d"), benc::bytes(&evil)],
                    };
                    // Once, or many times over.
                    let path = if keep == 1 { (0..6).flat_map(|_| path[..1].to_vec()).chain(path.clone()).collect() } else { path };
                    t.rebuilt(|v| edit_file(v, k, |f| f.set("path", Val::List(path))))
                };
                let t = Arc::new(t);
                bad.push((kit::show(&evil), t.clone()));
                plans.push((t.clone(), vec![(Spec::honest_varied(&t, r), 11)]));
            } else {
                // Harmless, and to be kept as it is.
                let odd = r.pick(&ODD).to_string();
                if t.multi {
                    let n = t.files.len();
                    for f in 0..n {
                        let at = r.below(t.files[f].path.len());
                        t.files[f].path[at] = if at == 0 { format!("{odd}{i}") } else { odd.clone() };
                        t.files[f].path.push(format!("{odd}{f}"));
                    }
                    let list = t.files.clone();
                    t = t.rebuilt(|v| {
                        for (k, f) in list.iter().enumerate() {
                            edit_file(v, k, |d| d.set("path", Val::List(f.path.iter().map(benc::bytes).collect())));
                        }
                        v.set("name", benc::bytes("plain"));
                    });
                } else {
                    t.name = odd.clone();
                    t.files[0].path = vec![odd.clone()];
                    t = t.rebuilt(|v| v.set("name", benc::bytes(&odd)));
                }
                let slash = r.one_in(2);
                if slash {
                    t = rehashed(&t, r, |h| h.contains(&b'/') || h[0] == b'.');
                }
                let t = Arc::new(t);
                good.push((odd, t.clone()));
                plans.push((t.clone(), vec![(Spec::honest_varied(&t, r), 11)]));
            }
        }
        let (mut w, of) = start_many(ctx, plans, Options::default())?;
        for t in bad.iter().map(|b| &b.1).chain(good.iter().map(|g| &g.1)) {
            add(ctx, &w, t)?;
        }
        let names: Vec<&String> = bad.iter().map(|b| &b.0).collect();
        let mut ends = vec![];
        for (odd, t) in &good {
            ends.push(completed(ctx, &mut w, t, &format!("a file named {odd:?}, next to torrents that name {names:?}")));
        }
        settle(ctx, &mut w, Duration::from_secs(6));
        no_escape(&w).map_err(|v| match v {
            Verdict::Violation(m) => Verdict::Violation(format!("{m}; names were {names:?}")),
            v => v,
        })?;
        if let Some(f) = w.scratch.outside().first() {
            return violation(format!("{f} came to be, outside the folder the program runs in; names were {names:?}"));
        }
        crashed(&w).map_err(|v| match v {
            Verdict::Violation(m) => Verdict::Violation(format!("{m}; names were {names:?}")),
            v => v,
        })?;
        for e in ends {
            e?;
        }
        let met = (0..bad.len()).filter(|i| metadata_requests(&w).iter().any(|m| of[*i].contains(&m.1))).count();
        Ok(Obs::new(hash64(format!("{names:?}{}", ctx.idx).as_bytes()), met > 0, format!("hostile {names:?}; harmless {:?}", good[0].0))
            .count("torrents with hostile names whose metadata was fetched", met)
            .count("file system operations watched", w.log.events.len())
            .count("harmless odd names stored", good.len()))
    })
}

// C17

const EIO: i32 = 5;
const ENOSPC: i32 = 28;

pub fn c17(ctx: &mut Ctx) -> Verdict {
    case(|| {
        let t = gen(ctx, &Shape { max_content: 120_000, max_pieces: 12, max_files: 6, empty_files: true });
        let r = &mut ctx.rng;
        let mut faults: Vec<String> = vec![];
        let mut dead: Option<usize> = None;
        let mut blocked: Option<String> = None;
        match r.below(4) {
            0 => {
                // Writes that take only a part, over and over.
                let every = r.one_in(2);
                let (from, n) = (if every { 0 } else { r.below(10) }, if every { -1 } else { r.range(1, 6) as i32 });
                faults.push(format!("w|*|{from}|{n}|-1"));
            }
            1 => {
                let n = r.range(1, 60);
                faults.push(format!("w|*|{}|{n}|4", r.below(8)));
            }
            2 => {
                // Errors that are over when the same is tried again.
                let mut left = 3;
                while left > 0 {
                    let n = r.range(1, left);
                    left -= n;
                    let err = *r.pick(&[EIO, ENOSPC, 13, 12, 11, 122, 30, 26, 116]);
                    let op = *r.pick(&['w', 'w', 'o', 'm']);
                    // Not the saved metadata: that is only a cache.
                    let f = r.pick(&t.files).path.last().unwrap().clone();
                    let at = if op == 'm' { "dir".into() } else { f };
                    faults.push(format!("{op}|{at}|{}|{n}|{err}", r.below(4)));
                    if r.one_in(2) {
                        break;
                    }
                }
                if r.one_in(3) {
                    faults.push("w|*|0|-1|-1".into());
                }
            }
            _ => {
                let k = r.below(t.files.len());
                dead = Some(k);
                let name = t.files[k].path.join("/");
                // Nothing else may have a name that this one is a part of.
                let alone = t.files.iter().filter(|f| f.path.join("/").contains(&name)).count() == 1;
                if alone && r.one_in(2) {
                    let (op, err) = *r.pick(&[('w', EIO), ('w', ENOSPC), ('o', 13), ('o', 30), ('w', 27), ('o', 24)]);
                    faults.push(format!("{op}|{name}|0|-1|{err}"));
                } else {
                    blocked = Some(name);
                }
            }
        }
        let what = match (&dead, &blocked) {
            (Some(k), Some(_)) => format!("a folder in the place of file {k}"),
            (Some(k), None) => format!("file {k} failing for good: {faults:?}"),
            _ => format!("{faults:?}"),
        };
        let n = ctx.rng.range(1, 3);
        let specs = honest(ctx, &t, n);
        let mut w = inconclusive(kit::world::one_torrent(&t, specs, &mut ctx.rng, Options { faults: faults.join(","), ..Options::default() }))?;
        if let Some(b) = &blocked {
            let p = w.scratch.cwd.join(b);
            std::fs::create_dir_all(&p).map_err(|e| Verdict::Inconclusive(e.to_string()))?;
            // The folders above it are the program's to write to.
            let mut up = p;
            while up != w.scratch.cwd {
                kit::world::own(&up);
                up.pop();
            }
        }
        add(ctx, &w, &t)?;
        let failing: BTreeSet<usize> = dead.map(|k| if t.files[k].length > 0 { t.pieces_of_file(k).collect() } else { (0..t.pieces()).filter(|i| {
            // Comes with the pieces that end or begin where it is.
            let at: usize = t.files[..k].iter().map(|f| f.length).sum();
            i * t.piece_length <= at && at <= i * t.piece_length + t.piece(*i).len()
        }).collect() }).unwrap_or_default();
        if dead.is_some() {
            let stored = |w: &mut World| missing_pieces(w, &t, &failing).is_none();
            let end = w.wait(stored, quiet(ctx), LIMIT);
            crashed(&w)?;
            let miss = missing_pieces(&w, &t, &failing);
            match (end, miss) {
                (_, None) => (),
                (End::Timeout, Some(_)) => return Err(Verdict::Inconclusive(format!("{what}: still busy"))),
                (_, Some(m)) => return suspect(format!("with {what}, {m}; {}", t.describe())),
            }
            // And it still works.
            settle(ctx, &mut w, Duration::from_secs(8));
            match w.post("/add/magnet", b"none", Duration::from_secs(20)) {
                Ok((400, _)) => (),
                Ok((c, _)) => return suspect(format!("with {what}, the API answers {c}")),
                Err(e) => return suspect(format!("with {what}, the API does not answer: {e}")),
            }
        } else {
            completed(ctx, &mut w, &t, &format!("storage with faults {what}"))?;
        }
        crashed(&w)?;
        only_right_bytes(&w, &[t.clone()])?;
        let failed = w.log.events.iter().filter(|e| ["W", "O", "M"].contains(&e.op.as_str()) && e.rc < 0).count();
        let short = w.log.of("W").filter(|e| e.rc >= 0 && e.rc < e.b).count();
        Ok(Obs::new(hash64(format!("{what}{}", ctx.idx).as_bytes()), failed + short > 0, format!("{what}: {}", t.describe()))
            .count("operations that failed", failed)
            .count("short writes", short)
            .count("pieces kept from a failing file", if dead.is_some() { t.pieces() - failing.len() } else { 0 }))
    })
}

/// What is not on disk of the pieces other than these.
fn missing_pieces(w: &World, t: &Torrent, but: &BTreeSet<usize>) -> Option<String> {
    let mut at = 0;
    for f in &t.files {
        let name = f.path.join("/");
        let got = std::fs::read(w.scratch.cwd.join(&name)).unwrap_or_default();
        for i in 0..t.pieces() {
            let (a, b) = (i * t.piece_length, i * t.piece_length + t.piece(i).len());
            let (a, b) = (a.max(at), b.min(at + f.length));
            if a < b && !but.contains(&i) && got.get(a - at..b - at) != Some(&t.content[a..b]) {
                return Some(format!("piece {i} is not stored in {name:?}"));
            }
        }
        at += f.length;
    }
    None
}

// C18

fn changes(w: &World) -> usize {
    w.log
        .events
        .iter()
        .filter(|e| match e.op.as_str() {
            "O" => e.b == 1,
            "W" | "M" | "T" | "R" | "U" => true,
            _ => false,
        })
        .count()
}

/// All points at which a small download can be killed: before, in the middle of and after each change it makes.
pub fn c18(ctx: &mut Ctx) -> Verdict {
    case(|| {
        let piece_length = *ctx.rng.pick(&[40, 300, 16384, 20000]);
        let n = ctx.rng.range(1, 3) * piece_length - ctx.rng.below(30);
        let content = ctx.rng.bytes(n);
        let cut = ctx.rng.range(1, n - 1);
        let t = if ctx.rng.one_in(3) {
            build(false, "one", vec![File { path: vec!["one".into()], length: n }], piece_length, content, true)
        } else {
            let mut files = vec![
                File { path: vec!["sub".into(), "first".into()], length: cut },
                File { path: vec!["second".into()], length: n - cut },
            ];
            if ctx.rng.one_in(2) {
                files.insert(ctx.rng.below(3), File { path: vec!["other".into(), "empty".into()], length: 0 });
            }
            build(true, "some", files, piece_length, content, true)
        };
        let t = Arc::new(t);
        let peers = |ctx: &mut Ctx| -> Vec<Spec> {
            (0..2)
                .map(|_| {
                    let mut s = Spec::honest(&t);
                    s.greet.push(kit::peer::Greet::Msg(4, vec![0; 4]));
                    s.seed = ctx.rng.u64();
                    s
                })
                .collect()
        };
        let p = peers(ctx);
        let mut w = start(ctx, &t, p, Options::default())?;
        completed(ctx, &mut w, &t, "the run without a crash")?;
        settle(ctx, &mut w, Duration::from_millis(300));
        let total = changes(&w);
        drop(w);
        // In one case out of three, crashes on the way to recovery too.
        let again = ctx.rng.one_in(3);
        let (mut killed, mut recovered, mut twice, mut points) = (0, 0, 0, BTreeSet::new());
        for at in 0..total {
            for mode in ['b', 'p', 'a'] {
                let p = peers(ctx);
                let opts = Options { kill: format!("{at}:{mode}"), ..Options::default() };
                let mut w = inconclusive(kit::world::one_torrent(&t, p, &mut ctx.rng, opts))?;
                let magnet = t.magnet(&mut ctx.rng);
                let _ = w.add(&magnet);
                let mut end = w.wait(|w| w.complete(&t), quiet(ctx), LIMIT);
                for _ in 0..10 {
                    // Complete on disk, and the last change still to be killed in.
                    if matches!(end, End::Dead(_)) || !w.alive() {
                        end = End::Dead(String::new());
                        break;
                    }
                    std::thread::sleep(Duration::from_millis(10));
                }
                if matches!(end, End::Dead(_)) {
                    killed += 1;
                    if let Some(e) = w.log.of("X").next() {
                        points.insert((e.path.clone(), e.a, mode));
                    } else {
                        points.insert((format!("change {at}"), 0, mode));
                    }
                    if again {
                        let k = ctx.rng.below(total);
                        let opts = Options { kill: format!("{k}:{}", ctx.rng.pick(&['b', 'p', 'a'])), ..Options::default() };
                        inconclusive(w.restart(opts))?;
                        if w.alive() {
                            let _ = w.add(&magnet);
                            w.wait(|w| !w.alive(), Duration::from_millis(700), Duration::from_secs(10));
                        }
                        twice += !w.alive() as usize;
                    }
                }
                inconclusive(w.restart(Options::default()))?;
                add(ctx, &w, &t)?;
                completed(ctx, &mut w, &t, &format!("killed at change {at} ({mode}: {:?}) and started again", points.last()))?;
                crashed(&w)?;
                recovered += 1;
            }
        }
        Ok(Obs::new(hash64(&t.hash), killed > total, format!("{total} changes, each killed before, within and after: {}", t.describe()))
            .count("kills", killed)
            .count("second kills during recovery", twice)
            .count("recoveries", recovered)
            .count("distinct points of death", points.len()))
    })
}
