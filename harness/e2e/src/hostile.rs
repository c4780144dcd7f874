//! Peers that mean harm, or do less than they should.
use crate::sim::*;
use kit::benc::{self, Val};
use kit::peer::{ext_handshake, message, metadata_message, metadata_request, piece_message, Act, Asked, Ev, Event, Greet, Hs, Policy, Spec};
use kit::torrent::{Shape, Torrent};
use kit::world::{End, Options, World};
use kit::{hash64, Ctx, Obs, Rng, Verdict};
use std::sync::Arc;
use std::time::Duration;

const EXTREME: [u64; 14] = [
    0, 1, 255, 256, 16383, 16384, 65536, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, u64::MAX - 1, u64::MAX,
];

/// Text in which a place counted in bytes can be within a character.
fn odd_text(r: &mut Rng) -> String {
    let n = *r.pick(&[0, 1, 3, 10, 20, 40, 90, 300]);
    let n = r.range(n / 2, n + 1);
    let all = ["a", "Z", "_", " ", "/", "\0", "\n", "%", "{}", "é", "€", "漢", "😀", "\u{301}", "\u{202e}", "\u{feff}"];
    let some: Vec<&str> = (0..r.range(1, 4)).map(|_| *r.pick(&all)).collect();
    (0..n).map(|_| *r.pick(&some)).collect()
}

/// The payload of an extension message that says something it should not.
fn nasty_extension(r: &mut Rng) -> Vec<u8> {
    let sub = *r.pick(&[0, 0, 0, 1, 2, 255]);
    let mut b = vec![sub];
    match r.below(15) {
        0 => b.clear(),
        1 => (),
        2 => b.extend(kit::benc::gen_val(r, 3).encode()),
        3 => {
            let n = r.below(60);
            b.extend(r.bytes(n));
        }
        4 => {
            // Deep, closed or not.
            let n = *r.pick(&[100, 5000, 200_000]);
            let unit: &[u8] = *r.pick(&[b"l".as_slice(), b"d1:m", b"d1:a"]);
            b.extend(unit.repeat(n));
            if r.one_in(2) {
                b.extend(std::iter::repeat(b'e').take(n));
            }
        }
        5 => {
            // Lengths that are not there.
            let n = *r.pick(&["99999999999999999999", "18446744073709551615", "4294967295", "9223372036854775807", "1073741824"]);
            b.extend(format!("d1:md11:ut_metadatai3ee1:v{n}:x").bytes());
        }
        6 => {
            // A very large dictionary.
            let mut d = Val::Dict(Default::default());
            let mut m = Val::Dict(Default::default());
            for i in 0..r.range(1000, 20_000) {
                m.set(&format!("ext{i}"), benc::int(i as u64));
            }
            d.set("m", m);
            d.set("metadata_size", benc::int(*r.pick(&EXTREME)));
            b.extend(d.encode());
        }
        7 => {
            let d = benc::dict([("msg_type", benc::int(r.below(4) as u64)), ("piece", benc::int(*r.pick(&EXTREME))), ("total_size", benc::int(*r.pick(&EXTREME)))]);
            b.extend(d.encode());
            let n = *r.pick(&[0, 1, 16384, 100_000]);
            b.extend(r.bytes(n));
        }
        8 => b.extend(*r.pick(&[
            b"d1:mi3e13:metadata_sizei100ee".as_slice(),
            b"d1:ml2:abe13:metadata_sizei100ee",
            b"d1:md11:ut_metadatai-1ee13:metadata_sizei-5ee",
            b"d1:md11:ut_metadata1:xe13:metadata_size3:abce",
            b"d1:md11:ut_metadatad1:ai1eee13:metadata_sizei100ee",
            b"d8:msg_typei1e5:piecei0e",
            b"de",
            b"i5e",
            b"0:",
            b"d1:md2:\xff\xfei1eee",
        ])),
        9..=11 => {
            // A dictionary like those there are, but for names and values nobody thinks of.
            let mut m = Val::Dict(Default::default());
            for _ in 0..r.range(1, 40) {
                let v = match r.below(4) {
                    0 => benc::int(r.below(300) as u64),
                    1 => benc::bytes(odd_text(r)),
                    _ => benc::gen_val(r, 2),
                };
                m.set(&odd_text(r), v);
            }
            if r.one_in(2) {
                m.set("ut_metadata", benc::gen_val(r, 1));
            }
            let mut d = benc::dict([("m", m), ("v", benc::bytes(odd_text(r))), ("metadata_size", benc::int(*r.pick(&EXTREME)))]);
            for _ in 0..r.below(10) {
                let (k, v) = (odd_text(r), benc::gen_val(r, 1));
                d.set(&k, v);
            }
            if r.one_in(4) {
                d.set(*r.pick(&["m", "metadata_size", "msg_type", "piece", "v"]), benc::gen_val(r, 1));
            }
            b.extend(d.encode());
        }
        _ => {
            let mut d = ext_handshake(*r.pick(&EXTREME), 0);
            d.set("metadata_size", benc::int(*r.pick(&EXTREME)));
            d.set("reqq", benc::int(*r.pick(&EXTREME)));
            b.extend(d.encode());
        }
    }
    b
}

/// Bytes no well behaved peer sends, or not then.
fn nasty(r: &mut Rng) -> Vec<u8> {
    match r.below(14) {
        0 => {
            let n = r.below(20);
            message(r.byte(), &r.bytes(n))
        }
        1 => {
            let n = r.below(9);
            message(*r.pick(&[6, 7, 8]), &r.bytes(n))
        }
        2 => {
            let n = *r.pick(&[0, 1, 1000, 200_000, 1_000_000]);
            message(5, &vec![0xff; n])
        }
        3..=6 => message(20, &nasty_extension(r)),
        7 => {
            let mut b = r.pick(&[0x00100001u32, 0x00ffffff, 0x12ffffff, 0x13426974, 0x7fffffff, 0x80000000, 0xffffffff]).to_be_bytes().to_vec();
            let n = *r.pick(&[0, 1, 68, 5000]);
            b.extend(r.bytes(n));
            b
        }
        8 => {
            // Handshakes where none belongs, also as messages.
            let n = *r.pick(&[0, 20, 67, 68, 69]);
            message(19, &r.bytes(n))
        }
        9 => {
            let n = r.range(1, 300);
            r.bytes(n)
        }
        10 => {
            let n = *r.pick(&[0, 1, 12, 16384, 16385, 65536, 1_000_000]);
            piece_message(*r.pick(&[0, 1, 77, u32::MAX as usize]), *r.pick(&[0, 1, 16384, u32::MAX as usize]), &r.bytes(n))
        }
        11 => message(*r.pick(&[0, 1, 2, 3, 4, 9, 13, 14, 15, 16, 17, 21, 22, 23]), &r.bytes(4)),
        12 => {
            let n = r.range(2, 40);
            [0, 0, 0, 0].repeat(n)
        }
        _ => {
            let n = r.below(40);
            let mut b = (n as u32).to_be_bytes().to_vec();
            b.extend(r.bytes(n));
            b
        }
    }
}

/// Floods that a client has no reason to follow to their end: more than any download makes a peer say.
fn flood_unit(r: &mut Rng) -> (Vec<u8>, usize) {
    match r.below(4) {
        0 => (message(4, &[0, 0, 0, 1]).repeat(200), 4000),
        1 => (message(21, &r.bytes(16384)), 5000),
        2 => ([0, 0, 0, 0].repeat(500), 10_000),
        _ => (message(20, &[9; 900]).repeat(8), 8000),
    }
}

fn nasty_act(r: &mut Rng, block: bool, a: &Asked, meta_len: usize) -> Act {
    match r.below(12) {
        0 => Act::Corrupt,
        1 => Act::Short(r.below(20)),
        2 => Act::Long(*r.pick(&[1, 100, 16384, 900_000])),
        3 => Act::Disconnect,
        4 => Act::Choke,
        5 => Act::Stall,
        6 => {
            let k = r.range(1, 30);
            Act::Before((0..k).flat_map(|_| nasty(r)).collect())
        }
        7 => {
            let (b, n) = flood_unit(r);
            Act::Flood(b, n, 0)
        }
        8 if block => {
            let n = *r.pick(&[0, 1, 16383, 16384]);
            Act::Raw(piece_message(a.index.wrapping_add(r.below(3)), a.begin ^ 1, &r.bytes(n)))
        }
        8 => {
            let n = *r.pick(&[0, 1, 16384, 16385, 500_000]);
            let data = r.bytes(n);
            Act::Raw(metadata_message(r.byte(), a.index + r.below(2), *r.pick(&[0, 1, meta_len, 1 << 40]), &data))
        }
        9 => Act::TornClose(r.below(60)),
        _ => Act::Raw(nasty(r)),
    }
}

fn nasty_policy(r: &mut Rng, block: bool, meta_len: usize) -> Policy {
    let seed = r.u64();
    Arc::new(move |a: &Asked| {
        let mut r = Rng::new(seed ^ hash64(format!("{a:?}").as_bytes()));
        nasty_act(&mut r, block, a, meta_len)
    })
}

/// A hostile peer: what it is, and what it does.
fn hostile(t: &Arc<Torrent>, r: &mut Rng) -> (String, Spec) {
    let mut s = Spec::honest_varied(t, r);
    s.noise = 0;
    s.seg = kit::peer::Seg::Whole;
    let what = match r.below(10) {
        0 => {
            let hs = match r.below(6) {
                0 => {
                    let n = r.below(200);
                    r.bytes(n)
                }
                1 => {
                    let n = r.below(68);
                    kit::peer::handshake(&t.hash, &[0; 8])[..n].to_vec()
                }
                2 => {
                    let mut h = kit::peer::handshake(&t.hash, &[0; 8]);
                    h[r.below(20)] ^= r.byte() | 1;
                    h
                }
                3 => vec![0x13; r.below(300)],
                4 => nasty(r),
                _ => b"HTTP/1.1 400 Bad Request\r\nContent-Length: 0\r\n\r\n".to_vec(),
            };
            let what = format!("a handshake of {} odd bytes", hs.len());
            s.hs = Hs::Raw(hs);
            what
        }
        1 => {
            s.hs = r.pick(&[Hs::Close, Hs::Wrong, Hs::Silent]).clone();
            format!("handshake {:?}", s.hs)
        }
        2 | 3 => {
            let n = r.range(1, 8);
            for _ in 0..n {
                s.greet.insert(r.below(s.greet.len() + 1), Greet::Raw(nasty(r)));
            }
            format!("{n} odd messages after its handshake")
        }
        4 => {
            let at = s.greet.iter().position(|g| matches!(g, Greet::Extended)).unwrap();
            s.greet[at] = Greet::Msg(20, nasty_extension(r));
            "an odd extended handshake".into()
        }
        5 => {
            let (b, n) = flood_unit(r);
            let at = r.below(s.greet.len() + 1);
            s.greet.insert(at, Greet::Flood(b.clone(), n, 0));
            format!("{n} times {} bytes at step {at}", b.len())
        }
        6 | 7 => {
            s.on_block = nasty_policy(r, true, t.metadata.len());
            "odd answers to requests for blocks".into()
        }
        8 => {
            s.on_metadata = nasty_policy(r, false, t.metadata.len());
            "odd answers to requests for metadata".into()
        }
        _ => {
            // There is always more metadata.
            s.ext.set("metadata_size", benc::int(*r.pick(&[1 << 30, 1 << 40, u64::MAX, 64 << 20])));
            s.metadata = vec![];
            let n = *r.pick(&[16384, 900_000]);
            let data = r.bytes(n);
            s.endless = Some(Arc::new(data));
            format!("metadata without end, {n} bytes at a time")
        }
    };
    (what, s)
}

pub fn peak_mb(w: &World) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/{}/status", w.pid)).ok()?;
    s.lines().find(|l| l.starts_with("VmHWM"))?.split_whitespace().nth(1)?.parse::<u64>().ok().map(|k| k / 1024)
}

/// What no peer may bring about, whatever happened so far.
fn unharmed(w: &mut World, what: &[String]) -> Res<u64> {
    crashed(w).map_err(|v| match v {
        Verdict::Violation(m) => Verdict::Violation(format!("{m}; the peers: {what:?}")),
        v => v,
    })?;
    if !w.alive() {
        return violation(format!("the program died ({:?}) {}; the peers: {what:?}", w.status, w.stderr().lines().last().unwrap_or("")));
    }
    let mb = peak_mb(w).unwrap_or(0);
    if mb > 700 {
        return violation(format!("the program took {mb} MB; the peers: {what:?}"));
    }
    if let Some(e) = w.swarm.events().iter().find(|e| matches!(e.ev, Ev::Did("was listened to until the end"))) {
        return violation(format!("peer {} was listened to until the end of its flood; the peers: {what:?}", e.peer));
    }
    Ok(mb)
}

pub fn c06(ctx: &mut Ctx) -> Verdict {
    case(|| {
        let t = gen(ctx, &Shape { max_content: 120_000, max_pieces: 10, ..Shape::default() });
        let alone = ctx.rng.one_in(6);
        let mut peers = vec![];
        if !alone {
            for s in honest(ctx, &t, 2) {
                peers.push((s, 5));
            }
        }
        let n = ctx.rng.range(2, 5);
        let mut what = vec![];
        for _ in 0..n {
            let (w, s) = hostile(&t, &mut ctx.rng);
            what.push(w);
            peers.push((s, if alone { 6 } else { 2 }));
        }
        let (mut w, _) = start_many(ctx, vec![(t.clone(), peers)], Options { memory: 3 << 30, ..Options::default() })?;
        add(ctx, &w, &t)?;
        let how = format!("next to these peers: {what:?}");
        let end = if alone {
            settle(ctx, &mut w, Duration::from_secs(8));
            Ok(())
        } else {
            completed(ctx, &mut w, &t, &how)
        };
        unharmed(&mut w, &what)?;
        end?;
        if !alone {
            // What is left is hung up on in time.
            if let End::Timeout = w.wait(|w| w.log.open_connections() == 0, quiet(ctx), Duration::from_secs(40)) {
                return suspect(format!("40 s after the download a connection is still open; {how}"));
            }
        }
        let mb = unharmed(&mut w, &what)?;
        let (code, _) = w.post("/add/magnet", b"none", Duration::from_secs(20)).map_err(|e| Verdict::Suspect(format!("the API no longer answers: {e}; {how}")))?;
        if code != 400 {
            return suspect(format!("the API answers {code}; {how}"));
        }
        let ev = w.swarm.events();
        let conns = conversations(&ev).len();
        Ok(Obs::new(hash64(format!("{what:?}{}", ctx.idx).as_bytes()), conns > n, format!("{what:?}"))
            .count("hostile peers", n)
            .count("connections", conns)
            .count("peak memory in MB, summed", mb as usize)
            .count("floods cut short", ev.iter().filter(|e| matches!(e.ev, Ev::Did("was not listened to any longer"))).count()))
    })
}

/// C06: peers that go on forever with next to nothing, or stop in the middle: they are given up in time.
pub fn c06_slow(ctx: &mut Ctx) -> Verdict {
    case(|| {
        let t = gen(ctx, &Shape { max_content: 60_000, max_pieces: 6, ..Shape::default() });
        let r = &mut ctx.rng;
        let mut s = Spec::honest(&t);
        let what = match r.below(8) {
            0 => {
                s.hs = Hs::Silent;
                "says nothing".to_string()
            }
            1 => {
                s.greet = vec![Greet::Flood(vec![0, 0, 0, 0], 600, 50)];
                "sends keep-alives only".into()
            }
            2 => {
                s.greet = vec![Greet::Extended, Greet::Unchoke];
                s.on_metadata = Arc::new(|_| Act::Flood(vec![0, 0, 0, 0], 300_000, 0));
                s.on_block = s.on_metadata.clone();
                "answers with keep-alives".into()
            }
            3 => {
                let n = r.range(1, 60);
                s.on_block = Arc::new(move |_| Act::Torn(n));
                s.on_metadata = s.on_block.clone();
                format!("stops {n} bytes into its answers")
            }
            4 => {
                s.on_block = Arc::new(|_| Act::Stall);
                s.on_metadata = Arc::new(|_| Act::Stall);
                "does not answer".into()
            }
            5 => {
                let mut m = s.greet.clone();
                m.truncate(r.below(3));
                m.push(Greet::Flood(message(4, &[0, 0, 0, 0]), 2000, 400));
                s.greet = m;
                "goes on announcing a piece every now and then".into()
            }
            6 => {
                s.on_block = Arc::new(|_| Act::Flood(message(4, &[0, 0, 0, 0]), 2000, 400));
                s.on_metadata = s.on_block.clone();
                "announces a piece every now and then instead of answering".into()
            }
            _ => {
                let m = nasty(r);
                let n = r.below(m.len()).max(1);
                s.greet = vec![Greet::Raw(m[..n].to_vec())];
                "stops in the middle of an odd message".into()
            }
        };
        let mut peers = vec![(s, 1)];
        for h in honest(ctx, &t, 2) {
            peers.push((h, 7));
        }
        let (mut w, _) = start_many(ctx, vec![(t.clone(), peers)], Options::default())?;
        add(ctx, &w, &t)?;
        completed_within(ctx, &mut w, &t, &format!("next to a peer that {what}"), Duration::from_secs(120))?;
        if let End::Timeout = w.wait(|w| w.log.open_connections() == 0, quiet(ctx), Duration::from_secs(60)) {
            return suspect(format!("60 s after the download a peer that {what} is still listened to"));
        }
        unharmed(&mut w, &[what.clone()])?;
        let ev = w.swarm.events();
        let met = ev.iter().any(|e| e.peer == 0 && matches!(e.ev, Ev::Handshake(_)));
        Ok(Obs::new(hash64(format!("{what}{}", ctx.idx).as_bytes()), met, format!("a peer that {what}"))
            .count("connections", conversations(&ev).len()))
    })
}

// C07

enum Gate {
    /// Nothing may follow the handshake.
    Handshake,
    /// No block may be requested.
    Choked,
    /// No block may be requested after the choke.
    Chokes,
    /// No metadata may be requested.
    NoMetadata,
    /// Metadata may only be requested with this id.
    Id(u8),
}

fn gated(t: &Arc<Torrent>, r: &mut Rng) -> (String, Spec, Gate) {
    let mut s = Spec::honest_varied(t, r);
    s.noise = 0;
    match r.below(12) {
        0 => {
            s.hs = Hs::Wrong;
            ("a handshake for another torrent".into(), s, Gate::Handshake)
        }
        1 => {
            s.hs = Hs::Silent;
            ("no handshake".into(), s, Gate::Handshake)
        }
        2 => {
            // Messages without a handshake before them.
            s.hs = Hs::Raw([message(1, &[]), message(20, &[&[0u8][..], &s.ext.encode()].concat())].concat());
            ("messages and no handshake".into(), s, Gate::Handshake)
        }
        3 => {
            let mut h = t.hash;
            h.reverse();
            s.hs = Hs::Raw(kit::peer::handshake(&h, &s.reserved));
            ("a handshake for a hash with the same bytes".into(), s, Gate::Handshake)
        }
        4 => {
            let mut h = kit::peer::handshake(&t.hash, &s.reserved);
            let n = r.range(0, 3);
            // Right but for the end of the hash.
            h[47 - n] ^= 1 << r.below(8);
            s.hs = Hs::Raw(h);
            ("a handshake that differs at the end of the hash".into(), s, Gate::Handshake)
        }
        5 => {
            s.greet = vec![Greet::Extended, Greet::Bitfield];
            ("no unchoke".into(), s, Gate::Choked)
        }
        6 => {
            s.greet = vec![Greet::Extended, Greet::Choke, Greet::Bitfield, Greet::Msg(4, vec![0; 4]), Greet::Choke];
            ("choke, and no unchoke".into(), s, Gate::Choked)
        }
        7 => {
            let nth = r.below(4);
            let with_block = r.one_in(2);
            let piece = t.clone();
            s.on_block = Arc::new(move |a: &Asked| {
                if a.nth < nth {
                    return Act::Serve;
                }
                if with_block && a.index < piece.pieces() {
                    let d = piece.piece(a.index).get(a.begin..a.begin + a.length).unwrap_or(&[]);
                    // Chokes and yet sends it; what follows the choke can not be taken back.
                    return Act::ChokeAnd(piece_message(a.index, a.begin, d));
                }
                Act::Choke
            });
            (format!("a choke at its request {nth}"), s, Gate::Chokes)
        }
        8 => {
            s.ext = match r.below(4) {
                0 => ext_handshake(0, t.metadata.len()),
                1 => benc::dict([("m", benc::dict([])), ("metadata_size", benc::int(t.metadata.len() as u64))]),
                2 => benc::dict([("m", benc::dict([("ut_pex", benc::int(2)), ("ut_metadat", benc::int(3))])), ("metadata_size", benc::int(t.metadata.len() as u64))]),
                _ => benc::dict([("metadata_size", benc::int(t.metadata.len() as u64))]),
            };
            ("no support for metadata".into(), s, Gate::NoMetadata)
        }
        9 => {
            s.greet = vec![Greet::Bitfield, Greet::Unchoke];
            ("no extended handshake".into(), s, Gate::NoMetadata)
        }
        10 => {
            // What the length covers is that message's, also if it is not read.
            let length = *r.pick(&[(1u32 << 20) + 2, 1 << 24, 1 << 31, u32::MAX]);
            let mut raw = length.to_be_bytes().to_vec();
            if r.one_in(2) {
                raw.push(*r.pick(&[4, 5, 20, 99]));
            }
            s.greet = vec![Greet::Extended, Greet::Raw(raw), Greet::Flood(message(1, &[]), r.range(1, 30), 20)];
            ("an unchoke only within a message too long".into(), s, Gate::Choked)
        }
        _ => {
            let (a, b) = (r.range(1, 120) as u64, r.range(121, 255) as u64);
            let zero = r.one_in(3);
            let first = [&[0u8][..], &ext_handshake(a, t.metadata.len()).encode()].concat();
            s.ext = ext_handshake(if zero { 0 } else { b }, t.metadata.len());
            s.greet = vec![Greet::Msg(20, first), Greet::Extended, Greet::Unchoke];
            if zero {
                ("support for metadata, and then none".into(), s, Gate::NoMetadata)
            } else {
                ("another id for metadata".into(), s, Gate::Id(b as u8))
            }
        }
    }
}

fn passed(gate: &Gate, conv: &[Event]) -> Result<(), String> {
    let (mut shaken, mut choked) = (false, false);
    for e in conv {
        match (&e.ev, gate) {
            (Ev::Handshake(_), _) => shaken = true,
            (Ev::Msg(..) | Ev::Malformed(_) | Ev::KeepAlive, Gate::Handshake) if shaken => {
                return Err(format!("after the handshake it was sent {:?}", e.ev))
            }
            (Ev::Msg(6, _), Gate::Choked) => return Err("a block was requested".into()),
            (Ev::Did("choked"), _) => choked = true,
            (Ev::Msg(6, _), Gate::Chokes) if choked => return Err("a block was requested after the choke".into()),
            (Ev::Msg(20, b), Gate::NoMetadata) if b.first() != Some(&0) => {
                return Err(format!("an extension message was sent: {}", kit::show(b)))
            }
            (Ev::Msg(20, b), Gate::Id(id)) if metadata_request(b).is_some() && b[0] != *id => {
                return Err(format!("metadata was requested with id {}, the last announced was {id}", b[0]))
            }
            _ => (),
        }
    }
    Ok(())
}

pub fn c07(ctx: &mut Ctx) -> Verdict {
    case(|| {
        let t = gen(ctx, &Shape { max_content: 150_000, max_pieces: 16, max_files: 3, ..Shape::default() });
        let n = ctx.rng.range(1, 4);
        let mut peers = vec![];
        let (mut what, mut gates) = (vec![], vec![]);
        for _ in 0..n {
            let (w, s, g) = gated(&t, &mut ctx.rng);
            what.push(w);
            gates.push(g);
            let times = ctx.rng.range(1, 4);
            peers.push((s, times));
        }
        for s in honest(ctx, &t, 1) {
            peers.push((s, 12 - n));
        }
        let (mut w, _) = start_in_order(ctx, vec![(t.clone(), peers)], Options::default())?;
        add(ctx, &w, &t)?;
        let end = completed(ctx, &mut w, &t, &format!("one honest peer, and others with {what:?}"));
        let (mut conns, mut met) = (0, std::collections::HashSet::new());
        for (peer, conn, conv) in conversations(&w.swarm.events()) {
            if peer < n && has_handshake(&conv) {
                conns += 1;
                met.insert(peer);
                if let Err(e) = passed(&gates[peer], &conv) {
                    return violation(format!("a peer with {}: {e} (connection {conn})", what[peer]));
                }
            }
        }
        end?;
        Ok(Obs::new(hash64(format!("{what:?}{}", ctx.idx).as_bytes()), met.len() == n, format!("peers with {what:?}"))
            .count("gated connections", conns)
            .count("gated peers met", met.len()))
    })
}

/// C07 when messages do not end: their parts, as slowly as they come, are not taken for messages.
pub fn c07_torn(ctx: &mut Ctx) -> Verdict {
    case(|| {
        let t = gen(ctx, &Shape { max_content: 40_000, max_pieces: 12, max_files: 2, ..Shape::default() });
        let r = &mut ctx.rng;
        let mut s = Spec::honest(&t);
        let (ms, unchoke) = (*r.pick(&[120, 300, 700]), message(1, &[]));
        let length = r.range(2_000, 900_000);
        let mut raw = (length as u32).to_be_bytes().to_vec();
        raw.push(*r.pick(&[4, 5, 9, 99]));
        if r.one_in(2) {
            raw.extend((0..r.range(1, 8)).flat_map(|_| unchoke.clone()));
        }
        s.greet = vec![Greet::Extended, Greet::Raw(raw), Greet::Flood(unchoke, 24_000 / ms as usize, ms)];
        if r.one_in(2) {
            s.greet.swap(0, 1);
            s.greet.swap(1, 2);
        }
        let what = format!("unchokes, {ms} ms apart, only within an unfinished message of {length} bytes");
        // Found after the metadata, and often.
        let mut good = honest(ctx, &t, 2);
        let peers = vec![(good.remove(0), 1), (s, 6), (good.remove(0), 5)];
        let (mut w, _) = start_in_order(ctx, vec![(t.clone(), peers)], Options::default())?;
        add(ctx, &w, &t)?;
        let end = completed_within(ctx, &mut w, &t, &format!("next to a peer with {what}"), Duration::from_secs(120));
        let mut met = false;
        for (peer, conn, conv) in conversations(&w.swarm.events()) {
            if peer == 1 && has_handshake(&conv) {
                met = true;
                if let Err(e) = passed(&Gate::Choked, &conv) {
                    return violation(format!("a peer with {what}: {e} (connection {conn})"));
                }
            }
        }
        end?;
        Ok(Obs::new(hash64(format!("{what}{}", ctx.idx).as_bytes()), met, what).count("connections", conversations(&w.swarm.events()).len()))
    })
}
