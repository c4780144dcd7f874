//! Metadata: forged, odd, broken, and as kept on disk.
use crate::sim::*;
use kit::benc::{self, Val};
use kit::peer::{ext_handshake, message, Act, Asked, Ev, Greet, Spec};
use kit::torrent::{self, build, File, Shape, Torrent};
use kit::world::{End, Options, World};
use kit::{hash64, hex, sha1, Ctx, Obs, Rng, Verdict};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::time::Duration;

/// A torrent whose metadata takes several messages to transfer.
fn long_metadata(r: &mut Rng) -> Torrent {
    let n = *r.pick(&[820, 1000, 1650, 2500]) + r.below(40);
    let piece_length = r.range(1, 12);
    let content = r.bytes(n * piece_length);
    let name = format!("long{}", r.below(1000));
    let files = vec![File { path: vec![name.clone()], length: content.len() }];
    let mut t = build(false, &name, files, piece_length, content, r.one_in(2));
    // Also sizes around a whole number of messages.
    let want = t.metadata.len().next_multiple_of(16384) + r.below(3);
    if r.one_in(2) {
        for pad in (0..want.saturating_sub(t.metadata.len())).rev() {
            let u = t.rebuilt(|i| i.set("pad", benc::bytes(vec![b'x'; pad])));
            if u.metadata.len() <= want {
                t = u;
                break;
            }
        }
    }
    t
}

/// Metadata that is not the torrent's, and the torrent it stands for.
fn forged(t: &Torrent, r: &mut Rng) -> (String, Torrent, Vec<u8>) {
    let own = |b: Vec<u8>| (t.clone(), b);
    let (what, (mut stands_for, bytes)) = match r.below(14) {
        12 | 13 => {
            // Its hash agrees with the right one in some of its bytes.
            let n = if t.metadata.len() < 2000 && r.one_in(2) { 2 } else { 1 };
            let at = *r.pick(&[0, 20 - n]);
            let o = t.rebuilt(|v| v.set("private", benc::int(2)));
            let o = rehashed(&o, r, |h| h[at..at + n] == t.hash[at..at + n]);
            let b = o.metadata.clone();
            (if at == 0 { "with a hash that begins like the right one" } else { "with a hash that ends like the right one" }, (o, b))
        }
        0 => {
            let o = torrent::gen(r, &Shape { max_content: 60_000, max_pieces: 6, ..Shape::default() });
            let b = o.metadata.clone();
            ("of another torrent", (o, b))
        }
        1 => {
            let mut b = t.metadata.clone();
            let i = r.below(b.len());
            b[i] ^= 1 << r.below(8);
            ("with one bit changed", own(b))
        }
        2 => {
            // The hash of one piece is that of other data, which the forger has.
            let mut o = t.clone();
            let i = r.below(t.content.len());
            o.content[i] ^= 1;
            let mut pieces = vec![];
            for p in o.content.chunks(o.piece_length) {
                pieces.extend_from_slice(&sha1(p));
            }
            let o = o.rebuilt(|v| v.set("pieces", benc::bytes(&pieces)));
            let b = o.metadata.clone();
            ("for other content", (o, b))
        }
        3 => {
            let o = t.rebuilt(|v| v.set("name", benc::bytes("forged")));
            let b = o.metadata.clone();
            ("with another name", (o, b))
        }
        4 => {
            let o = t.rebuilt(|v| v.set("extra", benc::int(1)));
            let b = o.metadata.clone();
            ("with a key added", (o, b))
        }
        5 => {
            let n = r.range(1, 40);
            let tail = if r.one_in(2) { vec![b'e'; n] } else { r.bytes(n) };
            ("with something after its end", own([t.metadata.clone(), tail].concat()))
        }
        6 => {
            let n = r.range(1, t.metadata.len() - 1);
            ("cut short", own(t.metadata[..n].to_vec()))
        }
        7 => {
            // The same dictionary, its keys in another order.
            let Val::Dict(d) = &t.info else { unreachable!() };
            let mut b = vec![b'd'];
            for (k, v) in d.iter().rev() {
                benc::enc_bytes(k, &mut b);
                b.extend(v.encode());
            }
            b.push(b'e');
            ("with its keys in another order", own(b))
        }
        8 => {
            // The same to a client that only knows these keys.
            let o = t.rebuilt(|v| {
                for k in ["private", "source", "attr", "zz", "pad"] {
                    v.del(k)
                }
                if v.encode() == t.metadata {
                    v.set("private", benc::int(1));
                }
            });
            let b = o.metadata.clone();
            ("with other unknown keys", (o, b))
        }
        9 => {
            let mut b = t.metadata.clone();
            let half = b.len() / 2;
            b.rotate_left(half);
            ("turned around", own(b))
        }
        10 if t.multi && t.files.len() > 1 => {
            let o = t.rebuilt(|v| {
                if let Val::Dict(d) = v {
                    if let Some(Val::List(l)) = d.get_mut(b"files".as_slice()) {
                        l.reverse();
                    }
                }
            });
            let b = o.metadata.clone();
            ("with its files in another order", (o, b))
        }
        _ => {
            let o = t.rebuilt(|v| {
                let n = r.range(1, 1 << 20) as u64;
                if t.multi {
                    v.set("length", benc::int(n));
                } else {
                    v.set("private", benc::int(n));
                }
            });
            let b = o.metadata.clone();
            ("with a value of no account changed", (o, b))
        }
    };
    stands_for.hash = t.hash;
    (what.to_string(), stands_for, bytes)
}

pub fn c08(ctx: &mut Ctx) -> Verdict {
    case(|| {
        let t = if ctx.rng.one_in(3) {
            Arc::new(long_metadata(&mut ctx.rng))
        } else {
            gen(ctx, &Shape { max_content: 60_000, max_pieces: 8, ..Shape::default() })
        };
        let (mut peers, mut what) = (vec![], vec![]);
        let change_of_mind = ctx.rng.one_in(4);
        let with_honest = change_of_mind || ctx.rng.one_in(2);
        let n = if change_of_mind { 0 } else { ctx.rng.range(1, 4) };
        if change_of_mind {
            // The very peers that sent wrong metadata send the right one later, and there are no others.
            let n = ctx.rng.range(1, 3);
            for mut s in honest(ctx, &t, n) {
                let r = &mut ctx.rng;
                let k = r.range(1, 9 / n);
                let (name, act) = match r.below(5) {
                    0 => ("one bit of it changed", Act::Corrupt),
                    1 => ("less of it", Act::Short(r.below(100))),
                    2 => ("more of it", Act::Long(r.range(1, 50))),
                    3 => ("nothing", Act::Disconnect),
                    _ => ("a part of a message", Act::TornClose(r.below(60))),
                };
                what.push(format!("with {name} {k} times, and then the right one"));
                s.on_metadata = Arc::new(move |a: &Asked| if a.conn < k { act.clone() } else { Act::Serve });
                peers.push((s, 14_usize.div_ceil(n)));
            }
        }
        for _ in 0..n {
            let (w, o, b) = forged(&t, &mut ctx.rng);
            if b == t.metadata {
                continue;
            }
            let r = &mut ctx.rng;
            let mut s = Spec::honest_varied(&Arc::new(o), r);
            // Announces the right size of it, or that of the forgery.
            // But what is asked for in all has to differ: not if only whole messages come after the right end.
            let whole = t.metadata.len() % 16384 == 0 && b.starts_with(&t.metadata);
            let size = if r.one_in(2) && !whole { t.metadata.len() } else { b.len() };
            let id = r.range(1, 255) as u64;
            s.ext = ext_handshake(id, size);
            s.metadata = b;
            what.push(w);
            peers.push((s, if with_honest { 1 } else { 12_usize.div_ceil(n) }));
        }
        if with_honest && !change_of_mind {
            for s in honest(ctx, &t, 2) {
                peers.push((s, 6));
            }
        }
        let (mut w, _) = start_in_order(ctx, vec![(t.clone(), peers)], Options::default())?;
        add(ctx, &w, &t)?;
        if with_honest {
            completed(ctx, &mut w, &t, &format!("honest peers found after ones with metadata {what:?}"))?;
            crashed(&w)?;
            only_right_bytes(&w, &[t.clone()])?;
            no_other_files(&w, &[t.clone()])?;
        } else {
            settle(ctx, &mut w, Duration::from_secs(30));
            crashed(&w)?;
            if let Some(q) = w.requests().first() {
                return violation(format!("piece {} was requested though all metadata was forged: {what:?}", q.3));
            }
            if let Some(f) = listing(&w.scratch.cwd).into_iter().find(|f| f != "test.log") {
                return violation(format!("{f:?} was created though all metadata was forged: {what:?}"));
            }
        }
        let asked = metadata_requests(&w);
        let forgers = what.len();
        let fooled = asked.iter().filter(|a| a.1 < forgers).count();
        Ok(Obs::new(hash64(&[&t.hash[..], format!("{what:?}").as_bytes()].concat()), fooled > 0, format!("metadata {what:?}, honest peers: {with_honest}"))
            .count("pieces of metadata asked of forgers", fooled)
            .count("pieces of metadata asked in all", asked.len())
            .count("torrents with metadata of several messages", (t.metadata.len() > 16384) as usize))
    })
}

// C09

pub fn edit_file(v: &mut Val, i: usize, f: impl FnOnce(&mut Val)) {
    if let Val::Dict(d) = v {
        if let Some(Val::List(l)) = d.get_mut(b"files".as_slice()) {
            let n = l.len();
            f(&mut l[i % n]);
        }
    }
}

/// A torrent whose metadata is inconsistent in one way.
fn inconsistent(t: &Torrent, r: &mut Rng) -> (String, Torrent) {
    let pieces = t.pieces();
    let hashes = |n: usize| benc::bytes(&[&t.info.get("pieces").map(|p| if let Val::Bytes(b) = p { b.clone() } else { vec![] }).unwrap()[..], &[7; 200]].concat()[..n]);
    let at = r.below(64);
    let (what, u): (String, Torrent) = match r.below(22) {
        0 => ("no piece length".into(), t.rebuilt(|v| v.del("piece length"))),
        1 => ("a piece length of 0".into(), t.rebuilt(|v| v.set("piece length", benc::int(0)))),
        2 => {
            let n = r.range(1, 19);
            (format!("{n} bytes after the last piece hash"), t.rebuilt(|v| v.set("pieces", hashes(pieces * 20 + n))))
        }
        3 => ("one piece hash too many".into(), t.rebuilt(|v| v.set("pieces", hashes(pieces * 20 + 20)))),
        4 => ("one piece hash too few".into(), t.rebuilt(|v| v.set("pieces", hashes(pieces * 20 - 20)))),
        5 => {
            let n = r.range(1, 19);
            (format!("a last piece hash without its last {n} bytes"), t.rebuilt(|v| v.set("pieces", hashes(pieces * 20 - n))))
        }
        6 => ("no pieces".into(), t.rebuilt(|v| v.del("pieces"))),
        7 => ("piece hashes that are a list".into(), t.rebuilt(|v| v.set("pieces", Val::List(vec![benc::bytes([1; 20])])))),
        8 => ("neither length nor files".into(), t.rebuilt(|v| {
            v.del("length");
            v.del("files");
        })),
        9 => ("a piece length that is a string".into(), t.rebuilt(|v| v.set("piece length", benc::bytes("16384")))),
        10 => {
            let n = *r.pick(&[u64::MAX, 1 << 63, (1 << 63) + 5]);
            (format!("a length of {n}"), if t.multi { t.rebuilt(|v| edit_file(v, at, |f| f.set("length", benc::int(n)))) } else { t.rebuilt(|v| v.set("length", benc::int(n))) })
        }
        11 => {
            // Lengths whose sum, in 64 bits, is the right one again.
            let u = t.rebuilt(|v| {
                v.del("length");
                let big = |n: u64| benc::dict([("length", benc::int(n)), ("path", Val::List(vec![benc::bytes("big")]))]);
                let rest = benc::dict([("length", benc::int(t.content.len() as u64)), ("path", Val::List(vec![benc::bytes("rest")]))]);
                v.set("files", Val::List(vec![big(1 << 63), rest, big(1 << 63)]));
            });
            ("lengths beyond what can be stored that add up to the right one".into(), u)
        }
        12 => ("no name".into(), {
            // The name of a torrent of several files names no file, but has to be there.
            t.rebuilt(|v| v.del("name"))
        }),
        13 if t.multi => ("a file without a path".into(), t.rebuilt(|v| edit_file(v, at, |f| f.del("path")))),
        14 if t.multi => ("a file without a length".into(), t.rebuilt(|v| edit_file(v, at, |f| f.del("length")))),
        15 if t.multi => ("a file with an empty path".into(), t.rebuilt(|v| edit_file(v, at, |f| f.set("path", Val::List(vec![]))))),
        16 if t.multi => ("a file whose path is no list of strings".into(), {
            let p = match r.below(3) {
                0 => Val::List(vec![benc::int(4)]),
                1 => Val::List(vec![benc::bytes("a"), Val::List(vec![])]),
                _ => benc::bytes("name"),
            };
            t.rebuilt(|v| edit_file(v, at, |f| f.set("path", p)))
        }),
        18 | 19 => {
            let wrong = |r: &mut Rng, right: Val| loop {
                let v = match r.below(6) {
                    0 => benc::int(r.below(100) as u64),
                    1 => benc::bytes(["", "12", "name", "i5e"][r.below(4)]),
                    2 => Val::List(vec![]),
                    3 => Val::List(vec![benc::int(1)]),
                    4 => Val::List(vec![benc::bytes("a"), benc::dict([])]),
                    _ => benc::dict([("length", benc::int(5))]),
                };
                if std::mem::discriminant(&v) != std::mem::discriminant(&right) {
                    return v;
                }
            };
            let mut keys = vec!["piece length", "pieces", "name"];
            keys.extend(if t.multi { ["files", "length of a file", "path of a file"].iter() } else { ["length"].iter() });
            let key = *r.pick(&keys);
            let right = match key {
                "pieces" | "name" => benc::bytes(""),
                "files" | "path of a file" => Val::List(vec![]),
                _ => benc::int(0),
            };
            let v = wrong(r, right);
            let u = match key.strip_suffix(" of a file") {
                Some(k) => t.rebuilt(|d| edit_file(d, at, |f| f.set(k, v.clone()))),
                None => t.rebuilt(|d| d.set(key, v.clone())),
            };
            (format!("a {key} that is {v:?}"), u)
        }
        20 => {
            let n = benc::int(777_777_777_777_777);
            let (key, mut u) = match r.below(2) {
                0 => ("piece length", t.rebuilt(|d| d.set("piece length", n))),
                _ if t.multi => ("length of a file", t.rebuilt(|d| edit_file(d, at, |f| f.set("length", n)))),
                _ => ("length", t.rebuilt(|d| d.set("length", n))),
            };
            let text = *r.pick(&["i-1e", "i-16384e", "i-9223372036854775808e", "i-18446744073709551615e", "i-0e"]);
            let at = u.metadata.windows(17).position(|w| w == b"i777777777777777e").unwrap();
            u.metadata.splice(at..at + 17, text.bytes());
            u.hash = sha1(&u.metadata);
            (format!("a {key} of {text}"), u)
        }
        21 if t.multi => ("no files in the list of files".into(), t.rebuilt(|v| v.set("files", Val::List(vec![])))),
        17 if t.multi => ("a file that is no dictionary".into(), t.rebuilt(|v| edit_file(v, at, |f| *f = benc::int(3)))),
        _ => {
            // Twice the content the hashes are for.
            let n = (t.content.len() + t.piece_length) as u64;
            ("more content than there are hashes for".into(), t.rebuilt(|v| {
                v.del("files");
                v.set("length", benc::int(n));
            }))
        }
    };
    (what, u)
}

/// Consistent, and out of the ordinary.
fn edge(r: &mut Rng) -> (String, Torrent) {
    let s = |max_content: usize| Shape { max_content, max_pieces: 12, ..Shape::default() };
    match r.below(9) {
        0 => {
            let piece_length = *r.pick(&[1 << 20, 1 << 24, (1usize << 32) - 1]);
            let n = r.range(1, 50_000);
            let files = vec![File { path: vec!["small".into()], length: n }];
            ("a piece length far beyond the content".into(), build(r.one_in(2), "small", files, piece_length, r.bytes(n), true))
        }
        1 => {
            let files: Vec<File> = (0..200).map(|i| File { path: vec![format!("d{}", i % 7), format!("f{i}")], length: i % 5 }).collect();
            let n = files.iter().map(|f| f.length).sum();
            let piece_length = r.range(20, 100);
            ("two hundred files of up to four bytes".into(), build(true, "many", files, piece_length, r.bytes(n), false))
        }
        2 => {
            let depth = r.range(20, 60);
            let mut path: Vec<String> = (0..depth).map(|i| format!("d{i}")).collect();
            path.push("deep".into());
            let files = vec![File { path, length: 5000 }, File { path: vec!["flat".into()], length: 1 }];
            ("a file many folders down".into(), build(true, "deep", files, 512, r.bytes(5001), false))
        }
        3 => {
            let files = vec![File { path: vec!["one".into()], length: 1 }];
            ("a single byte".into(), build(r.one_in(2), "one", files, *r.pick(&[1, 2, 16384]), r.bytes(1), true))
        }
        4 => {
            let mut t = torrent::gen(r, &s(40_000));
            t = t.rebuilt(|v| {
                v.set("!first", benc::int(0));
                v.set("length2", benc::int(9));
                v.set("meta version", benc::int(1));
                v.set("name.utf-8", benc::bytes([0xff, 0xfe]));
                v.set("pieces root", benc::bytes([9; 32]));
                v.set("~last", Val::List(vec![benc::dict([("pieces", benc::bytes("not these"))])]));
                if t.multi {
                    edit_file(v, 0, |f| {
                        f.set("attr", benc::bytes("x"));
                        f.set("md5sum", benc::bytes([b'0'; 32]));
                        f.set("path.utf-8", Val::List(vec![benc::bytes("other")]));
                        f.set("sha1", benc::bytes([0; 20]));
                    });
                }
            });
            ("many keys of no account".into(), t)
        }
        5 => {
            let n = r.range(1500, 4000);
            let files = vec![File { path: vec!["bytes".into()], length: n }];
            (format!("{n} pieces of a byte"), build(false, "bytes", files, 1, r.bytes(n), false))
        }
        6 => ("metadata of several messages".into(), long_metadata(r)),
        7 => {
            // Empty files first, last, and in between.
            let mut files = vec![];
            let mut n = 0;
            for i in 0..r.range(3, 12) {
                let length = if i % 2 == 0 { 0 } else { r.range(1, 3000) };
                n += length;
                files.push(File { path: vec![format!("f{i}")], length });
            }
            let n = if n == 0 { files[0].length = 5; 5 } else { n };
            ("every other file empty".into(), build(true, "empties", files, r.range(100, 2000), r.bytes(n), false))
        }
        _ => ("an ordinary torrent".into(), torrent::gen(r, &s(60_000))),
    }
}

/// C01 from outside: metadata with any well-formed values besides the known ones is understood.
pub fn c01(ctx: &mut Ctx) -> Verdict {
    case(|| {
        let mut plans = vec![];
        let mut depth = 0;
        for i in 0..4 {
            let mut t = torrent::gen(&mut ctx.rng, &Shape { max_content: 30_000, max_pieces: 8, ..Shape::default() });
            for _ in 0..ctx.rng.below(6) {
                let key = format!("{}{}", ctx.rng.pick(&["!", "file", "length", "m", "pieces-", "é", "~"]), benc::gen_text(&mut ctx.rng, 9));
                let v = benc::gen_val(&mut ctx.rng, 4);
                if !["files", "length", "name", "piece length", "pieces"].contains(&key.as_str()) {
                    depth += v.depth();
                    t = t.rebuilt(|d| d.set(&key, v));
                }
            }
            let t = Arc::new(own_names(&t, i));
            let s = Spec::honest_varied(&t, &mut ctx.rng);
            plans.push((t, vec![(s, 11)]));
        }
        let all: Vec<_> = plans.iter().map(|p| p.0.clone()).collect();
        let (mut w, _) = start_many(ctx, plans, Options::default())?;
        for t in &all {
            add(ctx, &w, t)?;
        }
        for t in &all {
            completed(ctx, &mut w, t, &format!("metadata {}", kit::show(&t.metadata)))?;
        }
        crashed(&w)?;
        let key = all.iter().fold(0, |k, t| k ^ hash64(&t.hash));
        Ok(Obs::new(key, true, kit::show(&all[0].metadata)).count("info dictionaries fetched", 4).count("levels of unknown values", depth))
    })
}

/// C02 from outside: malformed bencoding, in whatever a peer sends, is not taken for anything.
pub fn c02(ctx: &mut Ctx) -> Verdict {
    case(|| {
        let mut plans = vec![];
        let mut what = vec![];
        for i in 0..4 {
            let t = torrent::gen(&mut ctx.rng, &Shape { max_content: 30_000, max_pieces: 8, ..Shape::default() });
            if i == 3 {
                let t = Arc::new(own_names(&t, i));
                let s = Spec::honest_varied(&t, &mut ctx.rng);
                plans.push((t, vec![(s, 11)]));
                break;
            }
            let malformed = |r: &mut Rng, base: &[u8]| loop {
                let b = if r.one_in(3) {
                    benc::hostile_input(r)
                } else {
                    let mut b = base.to_vec();
                    benc::mutate(r, &mut b);
                    b
                };
                if b.len() < 300_000 && benc::decode(&b) == benc::Ref::Invalid {
                    return b;
                }
            };
            let mut spec = Spec::honest_varied(&Arc::new(t.clone()), &mut ctx.rng);
            let place = ctx.rng.below(3);
            let bytes;
            match place {
                0 => {
                    bytes = malformed(&mut ctx.rng, &t.metadata);
                    let t = Arc::new(Torrent { hash: sha1(&bytes), metadata: bytes.clone(), ..t });
                    spec.metadata = bytes.clone();
                    spec.ext = ext_handshake(3, bytes.len());
                    spec.torrent = t.clone();
                }
                1 => {
                    bytes = malformed(&mut ctx.rng, &spec.ext.encode());
                    for g in &mut spec.greet {
                        if matches!(g, Greet::Extended) {
                            *g = Greet::Msg(20, [&[0], &bytes[..]].concat());
                        }
                    }
                }
                _ => {
                    bytes = malformed(&mut ctx.rng, format!("d8:msg_typei1e5:piecei0e10:total_sizei{}ee", t.metadata.len()).as_bytes());
                    // With the id the program gives for ut_metadata.
                    let body = [&[1], &bytes[..], &t.metadata[..t.metadata.len().min(16384)]].concat();
                    let m = message(20, &body);
                    spec.on_metadata = Arc::new(move |_| Act::Raw(m.clone()));
                }
            }
            what.push((["metadata", "extension handshake", "metadata message"][place], kit::show(&bytes)));
            plans.push((spec.torrent.clone(), vec![(spec, 11)]));
        }
        let all: Vec<_> = plans.iter().map(|p| p.0.clone()).collect();
        let (mut w, of) = start_many(ctx, plans, Options::default())?;
        for t in &all {
            add(ctx, &w, t)?;
        }
        completed(ctx, &mut w, &all[3], "well-formed metadata")?;
        settle(ctx, &mut w, Duration::from_secs(5));
        crashed(&w).map_err(|v| match v {
            Verdict::Violation(m) => Verdict::Violation(format!("{m}; malformed: {what:?}")),
            v => v,
        })?;
        for (i, (place, bytes)) in what.iter().enumerate() {
            if let Some(q) = w.requests().iter().find(|q| of[i].contains(&q.1)) {
                return violation(format!("piece {} was requested on the word of a malformed {place}: {bytes}", q.3));
            }
            if *place == "extension handshake" && metadata_requests(&w).iter().any(|m| of[i].contains(&m.1)) {
                return violation(format!("metadata was requested on the word of a malformed {place}: {bytes}"));
            }
        }
        no_other_files(&w, &[all[3].clone()])?;
        let peak = crate::hostile::peak_mb(&w).unwrap_or(0);
        if peak > 700 {
            return violation(format!("memory of {peak} MB was used; malformed: {what:?}"));
        }
        let met = w.swarm.events().iter().filter(|e| e.peer < of[3].start && matches!(e.ev, Ev::Handshake(_))).count();
        Ok(Obs::new(hash64(format!("{what:?}").as_bytes()), met > 0, format!("{what:?}"))
            .count("malformed values sent", what.len())
            .count("connections to their senders", met))
    })
}

/// C09 from outside: some torrents with broken metadata and some with odd but consistent metadata at once.
pub fn c09(ctx: &mut Ctx) -> Verdict {
    case(|| {
        let mut plans = vec![];
        let (mut bad, mut good) = (vec![], vec![]);
        for i in 0..4 {
            let refuse = i < 2 || ctx.rng.one_in(3);
            let (what, t) = if refuse {
                let base = torrent::gen(&mut ctx.rng, &Shape { max_content: 40_000, max_pieces: 8, ..Shape::default() });
                inconsistent(&base, &mut ctx.rng)
            } else {
                edge(&mut ctx.rng)
            };
            let mut t = t;
            // Each its own place on disk.
            if !refuse {
                t = own_names(&t, i);
            }
            let t = Arc::new(t);
            let s = Spec::honest_varied(&t, &mut ctx.rng);
            plans.push((t.clone(), vec![(s, 11)]));
            if refuse {
                bad.push((what, t, i));
            } else {
                good.push((what, t, i));
            }
        }
        let (mut w, of) = start_many(ctx, plans, Options::default())?;
        let all: Vec<_> = bad.iter().chain(&good).map(|b| b.1.clone()).collect();
        for t in &all {
            add(ctx, &w, t)?;
        }
        for (what, t, _) in &good {
            completed(ctx, &mut w, t, &format!("metadata with {what}"))?;
        }
        settle(ctx, &mut w, Duration::from_secs(20));
        let whats: Vec<_> = bad.iter().map(|b| &b.0).collect();
        crashed(&w).map_err(|v| match v {
            Verdict::Violation(m) => Verdict::Violation(format!("{m}; metadata with {whats:?}")),
            v => v,
        })?;
        let mut fetched = 0;
        for (what, t, i) in &bad {
            if let Some(q) = w.requests().iter().find(|q| of[*i].contains(&q.1)) {
                return violation(format!("metadata with {what} was accepted: piece {} was requested; {}", q.3, kit::show(&t.metadata)));
            }
            fetched += metadata_requests(&w).iter().any(|m| of[*i].contains(&m.1)) as usize;
        }
        let ok: Vec<_> = good.iter().map(|g| g.1.clone()).collect();
        only_right_bytes(&w, &ok)?;
        no_other_files(&w, &ok)?;
        for f in listing(&w.scratch.cwd.join("downloads")) {
            let body = w.read(&format!("downloads/{f}")).unwrap_or_default();
            if let Some(b) = bad.iter().find(|b| sha1(&body) == b.1.hash) {
                return violation(format!("metadata with {} was kept as downloads/{f}", b.0));
            }
        }
        let goods: Vec<_> = good.iter().map(|b| &b.0).collect();
        Ok(Obs::new(hash64(format!("{whats:?}{goods:?}{}", ctx.idx).as_bytes()), fetched > 0, format!("refused: {whats:?}; accepted: {goods:?}"))
            .count("refused", fetched)
            .count("accepted", good.len()))
    })
}

/// The torrent with its files below a folder of its own.
pub fn own_names(t: &Torrent, i: usize) -> Torrent {
    let mut u = t.clone();
    if t.multi {
        for f in &mut u.files {
            f.path.insert(0, format!("torrent{i}"));
        }
        let list = u.files.clone();
        return u.rebuilt(|v| {
            for (k, f) in list.iter().enumerate() {
                edit_file(v, k, |d| d.set("path", Val::List(f.path.iter().map(benc::bytes).collect())));
            }
        });
    }
    u.name = format!("{}.{i}", u.name);
    u.files[0].path = vec![u.name.clone()];
    let name = u.name.clone();
    u.rebuilt(|v| v.set("name", benc::bytes(&name)))
}

// C10

fn switched(t: &Arc<Torrent>, on: &Arc<AtomicBool>, r: &mut Rng) -> Spec {
    let mut s = Spec::honest_varied(t, r);
    let on = on.clone();
    s.on_metadata = Arc::new(move |_| if on.load(Ordering::SeqCst) { Act::Serve } else { Act::Stall });
    s
}

pub fn c10(ctx: &mut Ctx) -> Verdict {
    case(|| {
        let long = ctx.rng.one_in(6);
        let mut t = if long { long_metadata(&mut ctx.rng) } else { torrent::gen(&mut ctx.rng, &Shape { max_content: 60_000, max_pieces: 8, ..Shape::default() }) };
        if ctx.rng.one_in(2) {
            // The name of the saved file comes from the hash.
            let odd = *ctx.rng.pick(&[b'/', 0, b'.', b'%', b'\\', b'\n', b' ', b'~']);
            t = rehashed(&t, &mut ctx.rng, |h| h.contains(&odd));
        }
        let t = Arc::new(t);
        let other = torrent::gen(&mut ctx.rng, &Shape { max_content: 60_000, max_pieces: 8, ..Shape::default() });
        let serving = Arc::new(AtomicBool::new(true));
        let peers = (0..2).map(|_| (switched(&t, &serving, &mut ctx.rng), 6)).collect();
        let (mut w, _) = start_many(ctx, vec![(t.clone(), peers)], Options::default())?;
        add(ctx, &w, &t)?;
        completed(ctx, &mut w, &t, "the first run")?;
        // Let it finish what it does besides.
        settle(ctx, &mut w, Duration::from_secs(1));
        w.stop();

        let saved: Vec<String> = listing(&w.scratch.cwd.join("downloads")).into_iter().collect();
        let Some(name) = saved.iter().find(|n| w.read(&format!("downloads/{n}")).is_some_and(|b| sha1(&b) == t.hash)).cloned() else {
            // Kept in another form than as it was received: only an intact one can be checked.
            if saved.is_empty() {
                return suspect(format!("nothing was saved of the metadata of {}", hex(&t.hash)));
            }
            return Err(Verdict::Inconclusive(format!("the metadata is saved in another form: {saved:?}")));
        };
        let path = w.scratch.cwd.join("downloads").join(&name);
        let body = t.metadata.clone();
        let r = &mut ctx.rng;
        let mut intact = false;
        let damaged: Option<Vec<u8>> = match r.below(13) {
            0..=3 => {
                intact = true;
                None
            }
            4 => Some(body[..r.below(body.len())].to_vec()),
            5 => Some(body[..body.len() - 1].to_vec()),
            6 => {
                let mut b = body.clone();
                let i = r.below(b.len());
                b[i] ^= 1 << r.below(8);
                Some(b)
            }
            7 => {
                // A piece hash that is another.
                let mut b = body.clone();
                let at = b.windows(8).position(|w| w == b"6:pieces").unwrap_or(0) + 14;
                let i = (at + r.below(20)).min(b.len() - 1);
                b[i] ^= 0xff;
                Some(b)
            }
            8 => Some(vec![]),
            9 => {
                let n = r.below(3000);
                Some(r.bytes(n))
            }
            10 => Some(other.metadata.clone()),
            11 => Some([body.clone(), vec![b'e'; r.range(1, 9)]].concat()),
            _ => {
                let mut b = body.clone();
                let k = r.below(b.len());
                b[k..].fill(0);
                Some(b)
            }
        };
        let mut what = if intact { "intact".to_string() } else { format!("{} bytes instead of {}", damaged.as_ref().unwrap().len(), body.len()) };
        let changed = damaged.as_ref().is_some_and(|d| *d != body);
        intact |= !changed;
        if let Some(d) = &damaged {
            std::fs::write(&path, d).map_err(|e| Verdict::Inconclusive(e.to_string()))?;
        }
        if !intact && r.one_in(8) {
            // Something that is no file at all in its place.
            let _ = std::fs::remove_file(&path);
            let _ = std::fs::create_dir(&path);
            what = "a folder".into();
        }
        for (f, _) in t.expected() {
            let _ = std::fs::remove_file(w.scratch.cwd.join(f));
        }
        if intact {
            serving.store(false, Ordering::SeqCst);
        }
        let before = metadata_requests(&w).len();
        inconclusive(w.restart(Options::default()))?;
        add(ctx, &w, &t)?;
        completed(ctx, &mut w, &t, &format!("after a restart with saved metadata {what}"))?;
        crashed(&w)?;
        only_right_bytes(&w, &[t.clone()])?;
        no_other_files(&w, &[t.clone()])?;
        let again = metadata_requests(&w).len() - before;
        if intact && again > 0 {
            return violation("metadata was requested again though it was saved and intact".to_string());
        }
        if !intact && again == 0 {
            return violation(format!("saved metadata ({what}) was used though it is not the torrent's"));
        }
        let mut third = 0;
        if !intact && what != "a folder" && ctx.rng.one_in(2) {
            // What was fetched again was saved again, and is used the next time.
            settle(ctx, &mut w, Duration::from_secs(1));
            w.stop();
            for (f, _) in t.expected() {
                let _ = std::fs::remove_file(w.scratch.cwd.join(f));
            }
            serving.store(false, Ordering::SeqCst);
            let before = metadata_requests(&w).len();
            inconclusive(w.restart(Options::default()))?;
            add(ctx, &w, &t)?;
            completed(ctx, &mut w, &t, &format!("after two restarts, before the first of which the saved metadata became {what}"))?;
            if metadata_requests(&w).len() > before {
                return violation(format!("metadata that had been fetched again, as what was saved was {what}, was fetched once more"));
            }
            third = 1;
        }
        Ok(Obs::new(hash64(format!("{what}{}", ctx.idx).as_bytes()), true, format!("saved metadata {what}, named {name}"))
            .count("intact", intact as usize)
            .count("damaged", !intact as usize)
            .count("restarts after the metadata was fetched again", third)
            .count("pieces of metadata fetched again", again))
    })
}


/// C09 beyond what can be downloaded: peers have nothing but the last piece of a torrent of many gigabytes.
pub fn c09_vast(ctx: &mut Ctx) -> Verdict {
    case(|| {
        let r = &mut ctx.rng;
        let last = r.range(1, 60_000);
        let piece_length: u64 = match r.below(5) {
            0 => 1 << r.range(24, 31),
            1 => u32::MAX as u64,
            2 => (1 << r.range(27, 31)) + r.below(100_000) as u64,
            3 => (1 << 32) / r.range(2, 12) as u64,
            _ => r.range(200_000_000, u32::MAX as usize) as u64,
        };
        let whole = r.range(1, 18) as u64;
        let multi = r.one_in(2);
        let total = whole * piece_length + last as u64;
        let content = r.bytes(last);
        // Of several files, the last piece has a part of the first, or not, and others.
        let (name, mut files) = ("vast".to_string(), vec![]);
        if multi {
            let mut cuts: Vec<u64> = vec![0, total];
            for _ in 0..r.below(4) {
                cuts.push(match r.below(4) {
                    0 => total - last as u64,
                    1 => total - r.below(last) as u64,
                    2 => r.u64() % total,
                    _ => (r.u64() % (whole + 1)) * piece_length,
                });
            }
            cuts.sort();
            for (i, c) in cuts.windows(2).enumerate() {
                files.push((vec![format!("d{}", i % 2), format!("f{i}")], c[1] - c[0]));
            }
        } else {
            files.push((vec![name.clone()], total));
        }
        let mut hashes = r.bytes(20 * whole as usize);
        hashes.extend(sha1(&content));
        let mut info = benc::dict([
            ("name", benc::bytes(&name)),
            ("piece length", benc::int(piece_length)),
            ("pieces", benc::bytes(&hashes)),
        ]);
        if multi {
            let list = files.iter().map(|(p, n)| {
                benc::dict([("length", benc::int(*n)), ("path", Val::List(p.iter().map(benc::bytes).collect()))])
            });
            info.set("files", Val::List(list.collect()));
        } else {
            info.set("length", benc::int(total));
        }
        let metadata = info.encode();
        let t = Arc::new(Torrent {
            multi,
            name,
            files: vec![],
            piece_length: piece_length as usize,
            content: vec![],
            info,
            hash: sha1(&metadata),
            metadata,
        });
        let what = format!("{} pieces of {piece_length}, the last of {last} bytes, over files of {:?}", whole + 1, files.iter().map(|f| f.1).collect::<Vec<_>>());
        let mut s = Spec::honest(&t);
        s.greet = vec![Greet::Extended, Greet::Unchoke];
        let n = whole as usize;
        s.on_block = Arc::new(move |a| if a.index == n { Act::Serve } else { Act::Disconnect });
        let bytes = content.clone();
        s.source = Some(Arc::new(move |i, begin, length| {
            if i == n { bytes.get(begin..begin.checked_add(length)?).map(<[u8]>::to_vec) } else { None }
        }));
        let (mut w, _) = start_many(ctx, vec![(t.clone(), vec![(s, 12)])], Options::default())?;
        add(ctx, &w, &t)?;
        // Where the last piece belongs: (file, offset in the file, bytes).
        let (mut places, mut at, from) = (vec![], 0, total - last as u64);
        for (p, len) in &files {
            let (a, b) = (from.max(at), total.min(at + len));
            if a < b {
                places.push((p.join("/"), a - at, content[(a - from) as usize..(b - from) as usize].to_vec()));
            }
            at += len;
        }
        let dir = w.scratch.cwd.clone();
        let stored = || {
            places.iter().all(|(f, a, b)| {
                use std::os::unix::fs::FileExt;
                let mut have = vec![0; b.len()];
                std::fs::File::open(dir.join(f)).and_then(|f| f.read_exact_at(&mut have, *a)).is_ok() && have == *b
            })
        };
        let asked = |w: &World| w.requests().iter().map(|q| q.3).collect::<std::collections::BTreeSet<_>>();
        let all: std::collections::BTreeSet<usize> = (0..=n).collect();
        let end = w.wait(|w| stored() && asked(w) == all, quiet(ctx), LIMIT);
        crashed(&w)?;
        if let Some(i) = asked(&w).iter().find(|i| **i > n) {
            return violation(format!("piece {i} was requested of {what}"));
        }
        for e in w.log.of("W").filter(|e| !e.path.starts_with("downloads/") && e.rc > 0) {
            let right = places.iter().any(|(f, a, b)| {
                let k = (e.a as u64).checked_sub(*a).map(|k| k as usize);
                *f == e.path && k.and_then(|k| b.get(k..k + e.rc as usize)) == Some(&e.data[..])
            });
            if !right {
                return violation(format!("{} bytes were written at {} of {:?}, which are not those that belong there: {what}", e.rc, e.a, e.path));
            }
        }
        let missing: Vec<_> = all.difference(&asked(&w)).copied().collect();
        match end {
            End::Done => (),
            End::Dead(s) => return violation(format!("the program died ({s}): {what}")),
            _ if !missing.is_empty() => return suspect(format!("pieces {missing:?} were never requested: {what}; {}", w.summary())),
            _ => return suspect(format!("the last piece was not stored: {what}; {}", w.summary())),
        }
        Ok(Obs::new(hash64(what.as_bytes()), total > u32::MAX as u64, what)
            .count("pieces requested", n + 1)
            .count("places of the last piece", places.len()))
    })
}
