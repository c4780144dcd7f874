//! Who is asked for what: peers that fail, peers that keep failing, and several torrents at once.
use crate::meta::own_names;
use crate::sim::*;
use kit::peer::{message, Act, Asked, Ev, Greet, Hs, Policy, Spec};
use kit::torrent::{self, Shape, Torrent};
use kit::tracker;
use kit::world::{End, Options, World};
use kit::{hash64, hex, now_ns, Ctx, Obs, Rng, Verdict};
use std::collections::{HashMap, HashSet};
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

// C15

fn failure(r: &mut Rng) -> Act {
    match r.below(12) {
        0 | 1 => Act::Disconnect,
        2 | 3 => Act::Corrupt,
        4 => Act::Choke,
        5 => Act::Stall,
        6 => Act::Torn(r.below(40)),
        7 => Act::TornClose(r.below(300)),
        8 => Act::Short(r.below(9)),
        9 => Act::Long(r.range(1, 9)),
        10 => Act::Raw(vec![0xff; r.range(1, 30)]),
        _ => Act::Late(1400),
    }
}

/// Fails in ways that change from one attempt to the next.
fn unreliable(t: &Arc<Torrent>, r: &mut Rng) -> (String, Spec) {
    let mut s = Spec::honest_varied(t, r);
    let seed = r.u64();
    let pieces = t.pieces();
    // Which requests fail: (what, of which connection, request, piece).
    let (what, fails): (String, Box<dyn Fn(&Asked, &mut Rng) -> bool + Send + Sync>) = match r.below(9) {
        0 => {
            s.hs = r.pick(&[Hs::Close, Hs::Wrong, Hs::Silent]).clone();
            (format!("handshake {:?}", s.hs), Box::new(|_, _| true))
        }
        1 => {
            s.greet.retain(|g| !matches!(g, Greet::Unchoke));
            ("never unchokes".into(), Box::new(|_, _| true))
        }
        2 => {
            let n = r.range(1, 4);
            (format!("fails at its first {n} connections"), Box::new(move |a, _| a.conn < n))
        }
        3 => {
            let n = r.range(1, 4);
            (format!("fails from its connection {n} on"), Box::new(move |a, _| a.conn >= n))
        }
        4 => {
            let n = r.range(1, 3);
            (format!("fails at each request {n}"), Box::new(move |a, _| a.nth == n))
        }
        5 => {
            let i = r.below(pieces);
            (format!("fails at piece {i}"), Box::new(move |a, _| a.index == i))
        }
        6 => ("fails at the last block of pieces".into(), Box::new(move |a, _| a.length < 16384)),
        7 => ("fails always".into(), Box::new(|_, _| true)),
        _ => {
            let n = r.range(2, 5);
            (format!("fails one time in {n}"), Box::new(move |_, r| r.one_in(n)))
        }
    };
    let one_way = failure(r);
    let mixed = r.one_in(2);
    let p: Policy = Arc::new(move |a: &Asked| {
        let mut r = Rng::new(seed ^ hash64(format!("{a:?}").as_bytes()));
        if !fails(a, &mut r) {
            Act::Serve
        } else if mixed {
            failure(&mut r)
        } else {
            one_way.clone()
        }
    });
    let what = if mixed { what } else { format!("{what}: {:?}", failure_name(&p)) };
    s.on_block = p.clone();
    if r.one_in(3) {
        s.on_metadata = p;
    }
    (what, s)
}

fn failure_name(p: &Policy) -> String {
    format!("{:.40}", format!("{:?}", p(&Asked { conn: 0, nth: 0, index: 0, begin: 0, length: 1 })))
}

pub fn c15(ctx: &mut Ctx) -> Verdict {
    case(|| {
        let small = ctx.rng.one_in(3);
        let t = if small {
            gen(ctx, &Shape { max_content: 4000, max_pieces: 50, max_files: 4, empty_files: true })
        } else {
            gen(ctx, &Shape { max_content: 200_000, max_pieces: 14, ..Shape::default() })
        };
        let n = ctx.rng.range(1, 4);
        let (mut peers, mut what) = (vec![], vec![]);
        for _ in 0..n {
            let (w, s) = unreliable(&t, &mut ctx.rng);
            what.push(w);
            let times = ctx.rng.range(1, 5);
            peers.push((s, times));
        }
        let good = ctx.rng.range(1, 2);
        for s in honest(ctx, &t, good) {
            // Found only once, or often.
            let times = if ctx.rng.one_in(2) { 1 } else { 6 };
            peers.push((s, times));
        }
        let times: usize = peers.iter().map(|p| p.1).sum();
        if times < 12 {
            peers[0].1 += 12 - times;
        }
        // Each failure to give the metadata can take a while, and all of them come before anything else.
        for (s, times) in peers.iter_mut().take(n) {
            if *times > 2 {
                s.on_metadata = kit::peer::serve();
            }
        }
        let (mut w, _) = start_many(ctx, vec![(t.clone(), peers)], Options::default())?;
        add(ctx, &w, &t)?;
        completed(ctx, &mut w, &t, &format!("{good} honest peers, and others: {what:?}"))?;
        // What it still asks for, if it does.
        settle(ctx, &mut w, Duration::from_millis(1500));
        crashed(&w)?;
        only_right_bytes(&w, &[t.clone()])?;
        no_other_files(&w, &[t.clone()])?;
        let stored = stored_at(&w, &t);
        for q in w.requests() {
            if let Some(at) = stored.get(q.3).copied().flatten() {
                if q.0 > at {
                    return suspect(format!("piece {} was requested {} ms after it was stored; peers: {what:?}", q.3, (q.0 - at) / 1_000_000));
                }
            }
        }
        let failed = w.swarm.events().iter().filter(|e| e.peer < n && matches!(e.ev, Ev::Did(_))).count();
        let mut firsts: HashMap<usize, usize> = HashMap::new();
        for q in w.requests().iter().filter(|q| q.4 == 0) {
            *firsts.entry(q.3).or_default() += 1;
        }
        let retried = firsts.values().filter(|n| **n > 1).count();
        let met = w.swarm.events().iter().any(|e| e.peer < n && matches!(e.ev, Ev::Handshake(_)));
        Ok(Obs::new(hash64(format!("{what:?}{}", ctx.idx).as_bytes()), met, format!("{what:?}: {}", t.describe()))
            .count("failures met", failed)
            .count("pieces asked for more than once", retried)
            .count("pieces stored", stored.iter().flatten().count()))
    })
}

/// C15: hundreds of blocks in a piece, or pieces of metadata, from peers that take their time, or have a lot to say.
pub fn c15_long(ctx: &mut Ctx) -> Verdict {
    case(|| {
        let r = &mut ctx.rng;
        let in_metadata = r.one_in(3);
        let blocks = r.range(280, 400);
        let n = if in_metadata { r.range(1, 5000) } else { blocks * 16384 - r.below(16384) };
        // All in one piece, or a short one after it.
        let piece_length = if r.one_in(2) { n } else { n - r.below(n.div_ceil(4)) };
        let files = vec![torrent::File { path: vec!["long".into()], length: n }];
        let mut t = torrent::build(false, "long", files, piece_length, r.bytes(n), false);
        if in_metadata {
            t = torrent::padded(&t, blocks * 16384);
        }
        let t = Arc::new(t);
        let (slow, chatty) = *r.pick(&[(true, false), (false, true), (false, true), (true, true)]);
        let ms = 35_000 / blocks as u64 + r.below(30) as u64;
        let aside: Vec<u8> = (0..if chatty { r.range(1, 3) } else { 0 })
            .flat_map(|_| match r.below(3) {
                0 => vec![0; 4],
                1 => message(4, &0u32.to_be_bytes()),
                _ => message(1, &[]),
            })
            .chain(if chatty { message(4, &0u32.to_be_bytes()) } else { vec![] })
            .collect();
        let policy: Policy = Arc::new(move |a| match (slow, chatty) {
            (true, true) if a.nth % 2 == 0 => Act::Before(aside.clone()),
            (false, true) => Act::Before(aside.clone()),
            _ => Act::Late(if chatty { 2 * ms } else { ms }),
        });
        let mut peers = vec![];
        for mut s in honest(ctx, &t, 2) {
            s.seg = kit::peer::Seg::Whole;
            s.noise = 0;
            s.lag = None;
            if in_metadata {
                s.on_metadata = policy.clone();
            } else {
                s.on_block = policy.clone();
            }
            peers.push((s, 6));
        }
        let what = format!(
            "{blocks} {} from peers that {} with every answer",
            if in_metadata { "pieces of metadata" } else { "blocks in a piece" },
            match (slow, chatty) {
                (true, false) => format!("take {ms} ms"),
                (false, _) => "send other messages".into(),
                _ => format!("take {ms} ms and send other messages"),
            }
        );
        let (mut w, _) = start_many(ctx, vec![(t.clone(), peers)], Options::default())?;
        add(ctx, &w, &t)?;
        match w.wait(|w| w.complete(&t), quiet(ctx), Duration::from_secs(110)) {
            End::Done => (),
            End::Timeout => return suspect(format!("{what}: not complete after 110 s: {}", w.summary())),
            _ => return suspect(format!("{what}: it stopped: {}; {}", w.differs(&t).unwrap_or_default(), w.summary())),
        }
        only_right_bytes(&w, &[t.clone()])?;
        no_other_files(&w, &[t.clone()])?;
        Ok(Obs::new(hash64(what.as_bytes()), true, what).count("answers of patient downloads", blocks))
    })
}

/// C15: a crowd of peers that all fail, soon or at the last piece, and an honest one that is reported after them.
pub fn c15_crowd(ctx: &mut Ctx) -> Verdict {
    case(|| {
        let r = &mut ctx.rng;
        let n = r.range(1, 6);
        let piece_length = r.range(1, 3000);
        let length = n * piece_length;
        let files = vec![torrent::File { path: vec!["crowd".into()], length }];
        let mut t = torrent::build(false, "crowd", files, piece_length, r.bytes(length), false);
        // While the metadata is had from the first one, others are reported.
        let ms = *r.pick(&[0, 0, 60, 200]);
        if ms > 0 {
            t = torrent::padded(&t, r.range(8, 16) * 16384);
        }
        let t = Arc::new(t);
        let crowd = *r.pick(&[12, 20, 40, 70, 120]) + r.below(5);
        let last_only = r.one_in(2);
        let mut peers = vec![];
        for i in 0..crowd {
            let mut s = Spec::honest(&t);
            let way = r.below(4);
            let last = n - 1;
            let bad: Policy = Arc::new(move |a| {
                if last_only && a.index != last {
                    return Act::Serve;
                }
                match way {
                    0 => Act::Choke,
                    1 => Act::Corrupt,
                    _ => Act::Disconnect,
                }
            });
            s.on_block = bad;
            if i == 0 {
                s.on_metadata = Arc::new(move |_| Act::Late(ms));
            } else if !last_only && r.one_in(3) {
                s.hs = if r.one_in(2) { Hs::Close } else { Hs::Wrong };
            }
            peers.push((s, 1));
        }
        let good = r.range(1, 2);
        for mut s in honest(ctx, &t, good) {
            s.lag = None;
            peers.push((s, 1));
        }
        let what = format!(
            "{crowd} peers that fail {}, the metadata had in steps of {ms} ms, {good} honest ones found last",
            if last_only { "at the last piece" } else { "at all pieces" }
        );
        let (mut w, _) = start_in_order(ctx, vec![(t.clone(), peers)], Options::default())?;
        add(ctx, &w, &t)?;
        completed(ctx, &mut w, &t, &what)?;
        only_right_bytes(&w, &[t.clone()])?;
        let met: HashSet<usize> = w.swarm.events().iter().filter(|e| e.peer < crowd && matches!(e.ev, Ev::Msg(6, _))).map(|e| e.peer).collect();
        Ok(Obs::new(hash64(format!("{what}{}", ctx.idx).as_bytes()), true, what).count("failing peers asked for pieces", met.len()))
    })
}

// C16

fn always_fails(t: &Arc<Torrent>, r: &mut Rng) -> (String, Spec) {
    let mut s = Spec::honest_varied(t, r);
    s.seg = kit::peer::Seg::Whole;
    s.noise = 0;
    let what = match r.below(7) {
        0 => {
            s.hs = Hs::Close;
            "hangs up at once"
        }
        1 => {
            s.hs = Hs::Wrong;
            "has another torrent"
        }
        2 => {
            s.greet = vec![Greet::Extended];
            "never unchokes"
        }
        3 => {
            s.on_block = Arc::new(|_| Act::Corrupt);
            "alters every block"
        }
        4 => {
            s.on_block = Arc::new(|_| Act::Disconnect);
            "hangs up at every request"
        }
        5 => {
            s.on_block = Arc::new(|_| Act::Choke);
            "chokes at every request"
        }
        _ => {
            s.on_block = Arc::new(|_| Act::Stall);
            "does not answer requests"
        }
    };
    (what.to_string(), s)
}

/// When the metadata was there: from when on pieces are asked for.
fn metadata_at(w: &World) -> Option<u64> {
    w.log.of("W").find(|e| e.path.starts_with("downloads/")).map(|e| e.t)
}

pub fn c16(ctx: &mut Ctx) -> Verdict {
    case(|| {
        let r = &mut ctx.rng;
        let n = r.range(50, 80);
        let piece_length = r.range(1, 40);
        let files = vec![torrent::File { path: vec!["many".into()], length: n * piece_length }];
        let content = r.bytes(n * piece_length);
        let t = Arc::new(torrent::build(r.one_in(2), "many", files, piece_length, content, false));
        let (mut peers, mut what) = (vec![], vec![]);
        for _ in 0..2 {
            let (w, s) = always_fails(&t, r);
            what.push(w);
            peers.push((s, 8));
        }
        let mut good = Spec::honest(&t);
        good.greet.push(Greet::Msg(4, vec![0; 4]));
        good.on_block = Arc::new(|_| Act::Late(3));
        peers.push((good, 1));
        let (mut w, _) = start_many(ctx, vec![(t.clone(), peers)], Options::default())?;
        add(ctx, &w, &t)?;
        completed(ctx, &mut w, &t, &format!("one honest peer, and others: {what:?}"))?;
        settle(ctx, &mut w, Duration::from_millis(1500));
        crashed(&w)?;
        let Some(from) = metadata_at(&w) else { return Err(Verdict::Inconclusive("the metadata is not kept".into())) };
        let ev = w.swarm.events();
        let mut tries = [0; 3];
        for e in ev.iter().filter(|e| e.t > from) {
            // What only asks whether it is there is no attempt.
            let real = match e.ev {
                Ev::Handshake(_) => true,
                Ev::Close(0) => false,
                _ => continue,
            };
            tries[e.peer] += real as usize;
        }
        // One that hangs up before it is told anything: by the connections made to it from other than the trackers' side.
        for (p, what) in what.iter().enumerate() {
            if what == "hangs up at once" {
                let opens = ev.iter().filter(|e| e.peer == p && e.t > from && matches!(e.ev, Ev::Open)).count();
                // Up to 8 of these asked whether it is there.
                tries[p] = opens.saturating_sub(8);
            }
            if tries[p] > 9 {
                return suspect(format!("a peer that {what} was tried {} times; pieces: {n}", tries[p]));
            }
        }
        Ok(Obs::new(hash64(format!("{what:?}{}", ctx.idx).as_bytes()), tries[0] + tries[1] > 0, format!("{what:?}, {n} pieces"))
            .count("attempts at failing peers", tries[0] + tries[1])
            .count("attempts at honest peers", tries[2]))
    })
}

/// The most connections open at the same time, from then on.
fn most_open(w: &World, from: u64) -> usize {
    let (mut open, mut most) = (std::collections::HashSet::new(), 0);
    for e in &w.log.events {
        match e.op.as_str() {
            "CONN" => {
                open.insert(e.a);
            }
            "CLOSE" => {
                open.remove(&e.a);
            }
            _ => (),
        }
        if e.t > from {
            most = most.max(open.len());
        }
    }
    most
}

/// C16 when everybody fails.
pub fn c16_all(ctx: &mut Ctx) -> Verdict {
    case(|| {
        let t = gen(ctx, &Shape { max_content: 60_000, max_pieces: 30, ..Shape::default() });
        let n = ctx.rng.range(1, 4);
        let (mut peers, mut what) = (vec![], vec![]);
        for i in 0..n {
            let (w, mut s) = always_fails(&t, &mut ctx.rng);
            if i == 0 {
                // It gives the metadata.
                s = Spec::honest_varied(&t, &mut ctx.rng);
                let act = ctx.rng.pick(&[Act::Corrupt, Act::Disconnect, Act::Choke, Act::Stall]).clone();
                what.push(format!("answers requests with {act:?}"));
                s.on_block = Arc::new(move |_| act.clone());
            } else {
                what.push(w);
            }
            peers.push((s, 14_usize.div_ceil(n)));
        }
        let (mut w, _) = start_many(ctx, vec![(t.clone(), peers)], Options::default())?;
        add(ctx, &w, &t)?;
        if let End::Dead(s) = w.wait(|w| metadata_at(w).is_some(), quiet(ctx), Duration::from_secs(15)) {
            return violation(format!("the program died ({s}); peers: {what:?}"));
        }
        let Some(from) = metadata_at(&w) else { return suspect(format!("no metadata; {}; peers: {what:?}", w.summary())) };
        settle(ctx, &mut w, Duration::from_secs(4));
        let (early, t0) = (most_open(&w, from), now_ns());
        let before = w.log.of("CONN").count();
        settle(ctx, &mut w, Duration::from_secs(5));
        crashed(&w)?;
        if !w.alive() {
            return violation(format!("the program died; peers: {what:?}"));
        }
        let late = most_open(&w, t0);
        let more = w.log.of("CONN").count() - before;
        if late > early.max(6) {
            return violation(format!("{late} connections at once, at first it were {early}; peers: {what:?}"));
        }
        if more == 0 {
            return suspect(format!("nothing is tried any more, though pieces are missing; {}; peers: {what:?}", w.summary()));
        }
        if let Some(e) = w.log.of("W").find(|e| !e.path.starts_with("downloads/") && e.rc > 0) {
            return violation(format!("{} bytes were written to {:?} though nobody gave a piece", e.rc, e.path));
        }
        Ok(Obs::new(hash64(format!("{what:?}{}", ctx.idx).as_bytes()), true, format!("{what:?}"))
            .count("attempts while all fail", more)
            .count("most connections at once, summed", late))
    })
}

// C21

enum Kind {
    Good,
    /// No tracker knows it.
    Unknown,
    /// No tracker answers when it is announced.
    Hushed,
    /// Its peers do not do what they should.
    Stuck,
    /// Its peers are nowhere.
    Nowhere,
}

pub fn c21(ctx: &mut Ctx) -> Verdict {
    case(|| {
        let many = ctx.rng.one_in(10);
        let n = if many { ctx.rng.range(7, 20) } else { ctx.rng.range(2, 4) };
        let same_shape = ctx.rng.one_in(3);
        let alike = !many && ctx.rng.one_in(3);
        let base = torrent::gen(&mut ctx.rng, &Shape { max_content: 60_000, max_pieces: 10, max_files: 4, empty_files: true });
        let (mut torrents, mut kinds, mut specs, mut of) = (vec![], vec![], vec![], vec![]);
        let mut kind_names = vec![];
        for i in 0..n {
            let r = &mut ctx.rng;
            let mut t = if same_shape {
                let files = base.files.clone();
                let mut u = torrent::build(base.multi, &base.name, files, base.piece_length, r.bytes(base.content.len()), r.one_in(2));
                u.multi = base.multi;
                u
            } else {
                torrent::gen(r, &Shape { max_content: 60_000, max_pieces: 10, max_files: 4, empty_files: true })
            };
            t = own_names(&t, i);
            if i > 0 && alike && t.metadata.len() < 3000 {
                // Info hashes that agree in two bytes.
                let first: &Arc<Torrent> = &torrents[0];
                let at = *r.pick(&[0, 18]);
                t = rehashed(&t, r, |h| h[at..at + 2] == first.hash[at..at + 2]);
            }
            let t = Arc::new(t);
            // Of many, one of the last added is to make progress too.
            let kind = if i == 0 || (many && i == n - 1) { Kind::Good } else { match r.below(if many && n % 2 == 0 { 4 } else { 7 }) { 0 => Kind::Unknown, 1 => Kind::Stuck, 2 => Kind::Nowhere, 3 => Kind::Hushed, _ => Kind::Good } };
            let from = specs.len();
            match &kind {
                Kind::Good => {
                    kind_names.push("good".to_string());
                    for _ in 0..r.range(1, 2) {
                        specs.push(Spec::honest_varied(&t, r));
                    }
                }
                Kind::Stuck => {
                    let mut s = Spec::honest_varied(&t, r);
                    let what = match r.below(4) {
                        0 => {
                            s.hs = Hs::Silent;
                            "silent"
                        }
                        1 => {
                            s.on_metadata = Arc::new(|_| Act::Stall);
                            "without metadata"
                        }
                        2 => {
                            s.on_block = Arc::new(|_| Act::Stall);
                            "without pieces"
                        }
                        _ => {
                            s.on_block = Arc::new(|_| Act::Corrupt);
                            "corrupt"
                        }
                    };
                    kind_names.push(what.into());
                    specs.push(s);
                }
                Kind::Unknown => kind_names.push("unknown".into()),
                Kind::Hushed => kind_names.push("hushed".into()),
                Kind::Nowhere => kind_names.push("nowhere".into()),
            }
            of.push(from..specs.len());
            torrents.push(t);
            kinds.push(kind);
        }
        let hole = inconclusive(Nowhere::new().map_err(|e| e.to_string()))?;
        let hole_addr = hole.addr;
        // Which peers are reported for which torrent: its own, and sometimes those of others.
        let mut reported: Vec<Vec<usize>> = vec![];
        for i in 0..n {
            let mut l: Vec<usize> = of[i].clone().collect();
            if ctx.rng.one_in(3) {
                l.extend(0..specs.len());
            }
            reported.push(l);
        }
        let (mut r, hashes) = (ctx.rng.fork(), torrents.iter().map(|t| t.hash.to_vec()).collect::<Vec<_>>());
        let (rep, holes) = (reported.clone(), kinds.iter().map(|k| matches!(k, Kind::Nowhere)).collect::<Vec<_>>());
        let own: Vec<_> = of.clone();
        let hushed: Vec<Vec<u8>> =
            torrents.iter().zip(&kinds).filter(|k| matches!(k.1, Kind::Hushed)).map(|k| k.0.hash.to_vec()).collect();
        let w = World::start(
            specs,
            move |addrs| {
                let lists = (0..hashes.len())
                    .map(|i| {
                        if holes[i] {
                            return (hashes[i].clone(), vec![vec![hole_addr; 600]; tracker::ADDRESSES.len()]);
                        }
                        let mut all: Vec<SocketAddr> = rep[i].iter().map(|p| addrs[*p]).collect();
                        let mine: Vec<usize> = own[i].clone().collect();
                        while all.len() < 13 && !mine.is_empty() {
                            all.push(addrs[*r.pick(&mine)]);
                        }
                        (hashes[i].clone(), spread_exactly(all, &mut r))
                    })
                    .collect();
                let mut answers = tracker::reporting(lists);
                Box::new(move |req| {
                    if req.is_announce() && hushed.iter().any(|h| h == req.hash()) {
                        return vec![];
                    }
                    answers(req)
                })
            },
            Options::default(),
        );
        let mut w = inconclusive(w)?;
        // All at once, or with time in between; those that get nowhere first, or not.
        let mut order: Vec<usize> = (0..n).collect();
        if ctx.rng.one_in(2) {
            order.reverse();
        } else {
            ctx.rng.shuffle(&mut order);
        }
        let gap = *ctx.rng.pick(&[0, 0, 30, 300]);
        let twice = ctx.rng.one_in(4);
        // One after the other: each is complete before the next is added.
        let in_turn = ctx.rng.one_in(4);
        let mut worst = Duration::ZERO;
        let ask = |w: &World, worst: &mut Duration| -> Res<()> {
            let t0 = Instant::now();
            match w.post("/add/magnet", b"magnet:?dn=x", Duration::from_secs(20)) {
                Ok((400, _)) => (),
                Ok((c, _)) => return suspect(format!("a request without a magnet was answered with {c}")),
                Err(e) => return suspect(format!("the API does not answer: {e}")),
            }
            *worst = (*worst).max(t0.elapsed());
            Ok(())
        };
        let mut added = vec![0; n];
        for i in &order {
            add(ctx, &w, &torrents[*i])?;
            added[*i] = now_ns();
            if twice && *i == 0 {
                add(ctx, &w, &torrents[0])?;
            }
            std::thread::sleep(Duration::from_millis(gap));
            ask(&w, &mut worst)?;
            if in_turn && matches!(kinds[*i], Kind::Good) {
                completed(ctx, &mut w, &torrents[*i], &format!("torrent {i} of {kind_names:?} added one after the other as {order:?}"))?;
            }
        }
        let what = format!("{:?} added in the order {order:?}", kind_names);
        // A tracker that is busy with one torrent hears of the next all the same.
        let last = added.iter().max().copied().unwrap_or(0);
        let due = |w: &World| -> Option<String> {
            let seen = w.trackers.seen();
            for i in 0..n {
                for k in 0..tracker::ADDRESSES.len() {
                    let first = seen.iter().find(|q| q.tracker == k && q.is_announce() && q.hash() == torrents[i].hash);
                    let t = first.map_or(now_ns(), |q| q.t).saturating_sub(added[i]);
                    if first.is_none() || t > 6_000_000_000 {
                        return Some(format!("torrent {i} was announced to tracker {k} {}, {} ms after it was added; {what}",
                            if first.is_some() { "late" } else { "not at all" }, t / 1_000_000));
                    }
                }
            }
            None
        };
        while due(&w).is_some() && now_ns() < last + 6_500_000_000 {
            std::thread::sleep(Duration::from_millis(50));
        }
        if let Some(m) = due(&w) {
            crashed(&w)?;
            return suspect(m);
        }
        for i in 0..n {
            if matches!(kinds[i], Kind::Good) {
                completed(ctx, &mut w, &torrents[i], &format!("torrent {i} of {what}"))?;
                ask(&w, &mut worst)?;
            }
        }
        crashed(&w)?;
        if worst > Duration::from_secs(5) {
            return suspect(format!("the API took {worst:?} to answer; {what}"));
        }
        only_right_bytes(&w, &torrents)?;
        no_other_files(&w, &torrents)?;
        // Who was told what.
        let mut shaken = 0;
        for (peer, conn, conv) in conversations(&w.swarm.events()) {
            let mut of_conn = None;
            for e in &conv {
                match &e.ev {
                    Ev::Handshake(h) => {
                        shaken += 1;
                        of_conn = torrents.iter().position(|t| t.hash == h[28..48]);
                        match of_conn {
                            Some(i) if reported[i].contains(&peer) || of[i].contains(&peer) => (),
                            Some(i) => return violation(format!("peer {peer} got a handshake for torrent {i}, for which it was not reported; {what}")),
                            None => return violation(format!("a handshake with info hash {} that was never added; {what}", hex(&h[28..48]))),
                        }
                    }
                    Ev::Msg(6, b) if b.len() == 12 => {
                        let n = |i: usize| u32::from_be_bytes(b[i..i + 4].try_into().unwrap()) as usize;
                        let Some(t) = of_conn.map(|i| &torrents[i]) else { continue };
                        if n(0) >= t.pieces() || n(4) + n(8) > t.piece(n(0)).len() {
                            return violation(format!("on connection {conn} for {}, {} bytes from {} of piece {} were requested; {what}", t.describe(), n(8), n(4), n(0)));
                        }
                    }
                    _ => (),
                }
            }
        }
        let good = kinds.iter().filter(|k| matches!(k, Kind::Good)).count();
        Ok(Obs::new(hash64(format!("{what}{}", ctx.idx).as_bytes()), true, what)
            .count("torrents completed", good)
            .count("torrents that could not make progress", n - good)
            .count("handshakes attributed", shaken)
            .count("slowest API answer in ms, summed", worst.as_millis() as usize))
    })
}

// C22

/// Each piece is worked on once, and once more for each time that it failed.
pub fn c22(ctx: &mut Ctx) -> Verdict {
    case(|| {
        let pieces = ctx.rng.range(20, 400);
        let piece_length = ctx.rng.range(1, 2000);
        let n = pieces * piece_length - ctx.rng.below(piece_length);
        let files = vec![torrent::File { path: vec!["many".into()], length: n }];
        let t = Arc::new(torrent::build(false, "many", files, piece_length, ctx.rng.bytes(n), false));
        let failing: HashSet<usize> = (0..ctx.rng.below(4)).map(|_| ctx.rng.below(t.pieces())).collect();
        let left = Arc::new(Mutex::new(failing.clone()));
        let peers = ctx.rng.range(2, 12);
        let mut specs = honest(ctx, &t, peers);
        for s in &mut specs {
            let left = left.clone();
            s.on_block = Arc::new(move |a| if left.lock().unwrap().remove(&a.index) { Act::Disconnect } else { Act::Serve });
        }
        let mut w = start(ctx, &t, specs, Options::default())?;
        completed(ctx, &mut w, &t, &format!("honest peers, but for pieces {failing:?} once"))?;
        let mut times: HashMap<usize, HashSet<(usize, usize)>> = HashMap::new();
        for q in w.requests() {
            times.entry(q.3).or_default().insert((q.1, q.2));
        }
        for (i, conns) in &times {
            let want = 1 + failing.contains(i) as usize;
            if conns.len() > want {
                return suspect(format!("piece {i} was handed out {} times, and failed {} times", conns.len(), want - 1));
            }
        }
        crashed(&w)?;
        let conns = times.values().flatten().collect::<HashSet<_>>().len();
        Ok(Obs::new(hash64(&t.hash), conns > 1, format!("{failing:?} of {} fail once, {peers} peers", t.describe()))
            .count("pieces handed out by the program", times.len())
            .count("connections that shared them", conns))
    })
}

/// C22 in the interpreter: the pool alone, under many schedules.
pub fn c22_interpreted(ctx: &mut Ctx) -> Verdict {
    const SCHEDULES: u64 = 48;
    let (pieces, threads, puts) = (ctx.rng.range(1, 9), ctx.rng.range(2, 4), ctx.rng.below(3));
    let rate = *ctx.rng.pick(&["0.01", "0.05", "0.1", "0.3"]);
    let from = ctx.idx * SCHEDULES;
    let what = format!("{pieces} pieces, {threads} threads, up to {puts} put back by each, schedules {from} to {}", from + SCHEDULES - 1);
    // .build/target/debug/vc
    let root = std::env::current_exe().unwrap().ancestors().nth(4).unwrap().to_path_buf();
    let out = std::process::Command::new("timeout")
        .args(["-k", "2", "110", "cargo", "+nightly", "miri", "run", "--offline", "-q", "--"])
        .args([pieces, threads, puts].map(|n| n.to_string()))
        .current_dir(root.join("harness/miri"))
        .env("CARGO_TARGET_DIR", root.join(".build/miri"))
        .env("MIRIFLAGS", format!("-Zmiri-many-seeds={from}..{} -Zmiri-preemption-rate={rate}", from + SCHEDULES))
        .env_remove("RUSTUP_TOOLCHAIN")
        .env_remove("RUSTFLAGS")
        .output();
    let out = match out {
        Ok(o) => o,
        Err(e) => return Verdict::Inconclusive(e.to_string()),
    };
    let err = String::from_utf8_lossy(&out.stderr);
    if out.status.success() {
        return Verdict::Ok(Obs::new(hash64(what.as_bytes()), true, what).count("schedules interpreted", SCHEDULES as usize));
    }
    let sign = ["Undefined Behavior", "deadlock", "panicked at", "memory leaked"].iter().find(|s| err.contains(**s));
    match sign {
        Some(s) => {
            let at = err.find(s).unwrap();
            let from = (0..=at.saturating_sub(100)).rev().find(|i| err.is_char_boundary(*i)).unwrap_or(0);
            Verdict::Violation(format!("{what}: {}", err[from..].chars().take(700).collect::<String>()))
        }
        // With another interface it can not be had alone.
        None if err.contains("could not compile") => Verdict::Ok(Obs::new(0, false, "the pool can not be compiled alone")),
        None => Verdict::Inconclusive(format!("{what}: {:?}: {}", out.status, err.chars().take(400).collect::<String>())),
    }
}
