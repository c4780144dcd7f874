//! What is posted, what trackers are told of it, and what is believed of what they say.
use crate::sim::*;
use kit::magnet::{self, Means};
use kit::tracker::{self, announce_response, connect_response, Out, Req, Trackers, ADDRESSES};
use kit::http::{self, Answer, Means as Told};
use kit::peer::Swarm;
use kit::torrent::Shape;
use kit::world::{End, Options, Scratch, World};
use kit::{hash64, hex, show, Ctx, Obs, Rng, Verdict};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::net::{Ipv4Addr, SocketAddr};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

type Hash = [u8; 20];

/// Of every datagram to a tracker: whether it is one that the protocol knows, for a torrent that was added.
fn well_formed(w: &World, added: &BTreeSet<Hash>) -> Res<()> {
    for q in w.trackers.seen() {
        let d = &q.data;
        let name = ADDRESSES[q.tracker];
        if q.is_connect() {
            if d[..8] != [0, 0, 4, 0x17, 0x27, 0x10, 0x19, 0x80] {
                return violation(format!("tracker {name} got a connect request that starts with {}", hex(&d[..8])));
            }
        } else if q.is_announce() {
            if d[..8] != tracker::connection_id(q.tracker, &q.from) {
                return violation(format!("tracker {name} got an announce with connection id {}, but gave {}", hex(&d[..8]), hex(&tracker::connection_id(q.tracker, &q.from))));
            }
            if !added.iter().any(|h| h == q.hash()) {
                return violation(format!("tracker {name} got an announce of {}, which was not added", hex(q.hash())));
            }
            if d[80..84] > [0, 0, 0, 3][..] || d[96..98] == [0, 0] || d[92..96] == [0; 4] || (d.len() > 98 && d[98] > 2) {
                return violation(format!("tracker {name} got a malformed announce: {}", hex(d)));
            }
        } else {
            return violation(format!("tracker {name} got a datagram that is neither a connect nor an announce: {}", hex(d)));
        }
    }
    Ok(())
}

/// By tracker, the torrents announced to it.
fn announced(w: &World) -> Vec<BTreeSet<Hash>> {
    let mut out = vec![BTreeSet::new(); ADDRESSES.len()];
    for q in w.trackers.seen() {
        if q.is_announce() {
            out[q.tracker].insert(q.hash().try_into().unwrap());
        }
    }
    out
}

/// Where connections were tried to, and were not stopped on the way to the trackers.
fn contacted(w: &World) -> BTreeSet<String> {
    w.log.of("CONN").chain(w.log.of("REFUSE")).map(|e| e.path.clone()).collect()
}

/// Anything sent by UDP to other than the trackers.
fn only_trackers(w: &World) -> Res<()> {
    match w.log.of("UREF").chain(w.log.of("UDP").filter(|e| !ADDRESSES.contains(&e.path.as_str()))).next() {
        Some(e) => violation(format!("the program spoke UDP to {}", e.path)),
        None => Ok(()),
    }
}

// C03

pub fn c03(ctx: &mut Ctx) -> Verdict {
    case(|| {
        let mut w = inconclusive(World::start(vec![], |_| tracker::reporting(vec![]), Options::default()))?;
        let files = listing(&w.scratch.cwd);
        let n = if ctx.thorough { 80 } else { 40 };
        let (mut wanted, mut maybe) = (BTreeSet::new(), BTreeSet::new());
        let (mut accepted, mut refused, mut samples) = (0, 0, vec![]);
        for i in 0..n {
            let r = &mut ctx.rng;
            let (body, means) = match r.below(20) {
                0 => {
                    // No text.
                    let mut b = magnet::valid(r).0;
                    let at = r.below(b.len() + 1);
                    b.insert(at, *r.pick(&[0xff, 0xc0, 0x80, 0xfe]));
                    (b, Means::Nothing)
                }
                1 if i % 8 == 0 => (vec![b'a'; r.range(262_145, 1_000_000)], Means::Nothing),
                2..=9 => magnet::valid(r),
                _ => (magnet::invalid(r), Means::Nothing),
            };
            if samples.len() < 3 {
                samples.push(show(&body));
            }
            let code = match w.post("/add/magnet", &body, Duration::from_secs(20)) {
                Ok((c, _)) => c,
                // Too much of a body may be refused before it is sent.
                Err(_) if body.len() > 262_144 && w.alive() => 413,
                Err(e) => {
                    crashed(&w)?;
                    if !w.alive() {
                        return violation(format!("{} ended the program", show(&body)));
                    }
                    return suspect(format!("{} was not answered: {e}", show(&body)));
                }
            };
            match (&means, code) {
                (Means::Torrent(h), 200..=299) => {
                    wanted.insert(*h);
                    accepted += 1;
                }
                (Means::Maybe(h), 200..=299) => {
                    maybe.insert(*h);
                }
                (Means::Nothing | Means::Maybe(_), 400..=499) => refused += 1,
                (Means::Torrent(h), _) => return violation(format!("{} names {}, but was answered with {code}", show(&body), hex(h))),
                _ => return violation(format!("{} names no torrent, but was answered with {code}", show(&body))),
            }
            if ctx.rng.one_in(12) {
                // Other requests start nothing either.
                let path = *ctx.rng.pick(&["/", "/add", "/add/magnet/", "/add/torrent", "/add/magnet/magnet:?xt=urn:btih:0000000000000000000000000000000000000000"]);
                let body = magnet::valid(&mut ctx.rng).0;
                if let Ok((code, _)) = w.post(path, &body, Duration::from_secs(20)) {
                    if !(400..500).contains(&code) {
                        return violation(format!("a POST to {path} was answered with {code}"));
                    }
                }
            }
        }
        let all = |w: &World| announced(w).iter().all(|a| wanted.is_subset(a) && maybe.is_subset(a));
        let end = w.wait(|w| all(w), quiet(ctx), LIMIT);
        if let End::Dead(s) = end {
            return violation(format!("the program died ({s}) after {accepted} magnets and {refused} others"));
        }
        // What else is announced.
        std::thread::sleep(Duration::from_millis(150));
        crashed(&w)?;
        let added: BTreeSet<Hash> = wanted.union(&maybe).copied().collect();
        for (i, a) in announced(&w).iter().enumerate() {
            if let Some(h) = a.difference(&added).next() {
                return violation(format!("{} was announced to tracker {}, but not posted; posted: {:?}", hex(h), ADDRESSES[i], added.iter().map(|h| hex(h)).collect::<Vec<_>>()));
            }
            if let Some(h) = added.difference(a).next() {
                return suspect(format!("{} was posted, but not announced to tracker {}", hex(h), ADDRESSES[i]));
            }
        }
        well_formed(&w, &added)?;
        only_trackers(&w)?;
        if added.is_empty() && !w.trackers.seen().is_empty() {
            return violation("a tracker was contacted though no torrent was added");
        }
        if let Some(c) = contacted(&w).first() {
            return violation(format!("a connection to {c}, though no tracker knows a peer"));
        }
        if let Some(f) = listing(&w.scratch.cwd).difference(&files).find(|f| !own_file(f)) {
            return violation(format!("{f:?} was created, though there are no peers"));
        }
        match w.post("/add/magnet", b"", Duration::from_secs(20)) {
            Ok((400..=499, _)) => (),
            other => return suspect(format!("in the end, an empty post was answered with {other:?}")),
        }
        let seen = w.trackers.seen().len();
        Ok(Obs::new(hash64(samples.join(" ").as_bytes()), accepted > 0 && refused > 0, samples.join(" ; "))
            .count("torrents added", accepted)
            .count("posts refused", refused)
            .count("datagrams to trackers", seen))
    })
}

// C19

/// How one tracker treats those who ask.
#[derive(Clone, Debug)]
struct Manner {
    /// Requests it does not get, of either kind.
    lost: [usize; 2],
    /// How long it takes to answer, in ms.
    slow: [u64; 2],
    /// Sends each answer again.
    twice: bool,
    /// Others than the answer come before it.
    forged: [usize; 2],
    /// The answer to a connect request has more than 16 bytes.
    long: bool,
    /// Bytes after the last peer.
    tail: usize,
    /// Answers in a way that leaves open what the program should do.
    odd: Option<usize>,
    peers: usize,
}

fn manner(r: &mut Rng) -> Manner {
    let rarely = |r: &mut Rng, n: usize, v: usize| if r.one_in(n) { v } else { 0 };
    let two = r.range(1, 2);
    let slow = r.range(1, 1500) as u64;
    let count = match r.below(9) {
        0 => 0,
        1 | 2 => 1,
        3 => 2,
        4 | 5 => r.range(3, 30),
        6 => r.range(30, 200),
        7 => r.range(200, 650),
        // As many as a datagram holds.
        _ if r.one_in(12) => r.range(1500, 10_900),
        _ => r.range(600, 1500),
    };
    Manner {
        lost: [rarely(r, 4, two), rarely(r, 4, two)],
        slow: [if r.one_in(4) { slow } else { 0 }, if r.one_in(4) { slow } else { 0 }],
        twice: r.one_in(4),
        forged: [rarely(r, 3, 3), rarely(r, 3, 3)],
        long: r.one_in(6),
        tail: rarely(r, 4, 5),
        odd: if r.one_in(9) { Some(r.below(5)) } else { None },
        peers: count,
    }
}

/// Addresses nobody listens at, each given out once.
struct Places {
    used: BTreeSet<SocketAddr>,
}

impl Places {
    fn some(&mut self, n: usize, r: &mut Rng) -> Vec<SocketAddr> {
        let mut out = vec![];
        while out.len() < n {
            let a = if r.one_in(3) {
                Ipv4Addr::new(*r.pick(&[1, 2, 9, 45, 100, 126, 128, 185, 191, 223]), r.byte(), r.byte(), r.range(1, 254) as u8)
            } else {
                Ipv4Addr::new(127, r.range(1, 254) as u8, r.byte(), r.range(1, 254) as u8)
            };
            let port = match r.below(6) {
                0 => *r.pick(&[1, 80, 255, 256, 257, 0x0d0a, 32767, 32768, 65280, 65535]),
                _ => r.range(1, 65535) as u16,
            };
            let a = SocketAddr::from((a, port));
            if self.used.insert(a) {
                out.push(a);
            }
        }
        out
    }
}

/// Not the answer to a request, though it looks like it.
fn forgery(req: &Req, peers: &[SocketAddr], r: &mut Rng) -> Vec<u8> {
    let mut d = if req.is_connect() && r.one_in(2) { connect_response(req) } else { announce_response(req, peers) };
    // A connect request that is answered as if it were an announce is wrong as it is.
    let wrong = req.is_connect() && d[3] == 1;
    match r.below(6) {
        0 => return r.bytes(8).into_iter().take(r.below(8)).collect(),
        1 => return d[..r.below(8)].to_vec(),
        2 | 3 => {
            let at = r.range(4, 7);
            d[at] ^= 1 << r.below(8);
        }
        4 if !wrong || r.one_in(2) => {
            // No error, which is an answer too.
            let action: u32 = *r.pick(&[2, 4, 0x100, 0x0100_0000, 0x0001_0000, u32::MAX, 0x8000_0000, 255]);
            d[..4].copy_from_slice(&action.to_be_bytes());
        }
        _ if wrong => (),
        _ => {
            d[4..8].copy_from_slice(&r.bytes(4));
            if d[4..8] == *req.transaction() {
                d[4] ^= 1;
            }
        }
    }
    d
}

#[derive(Default)]
struct Said {
    /// Peers of answers.
    told: BTreeSet<SocketAddr>,
    /// Peers of answers whose treatment is up to the program.
    maybe: BTreeSet<SocketAddr>,
    forged: usize,
    lost: usize,
    /// Announces that were answered, or are about to be, by torrent and tracker.
    answered: BTreeSet<(Hash, usize)>,
}

pub fn c19(ctx: &mut Ctx) -> Verdict {
    case(|| {
        let n = *ctx.rng.pick(&[1, 1, 2, 3]);
        let mut places = Places { used: BTreeSet::new() };
        // By torrent and tracker.
        let mut manners: HashMap<(Hash, usize), (Manner, Vec<SocketAddr>, Vec<SocketAddr>)> = HashMap::new();
        let mut by_tracker: Vec<Manner> = vec![];
        let mut added = BTreeSet::new();
        let hashes: Vec<Hash> = (0..n).map(|_| ctx.rng.bytes(20).try_into().unwrap()).collect();
        let mut calm = (0..ADDRESSES.len()).map(|_| manner(&mut ctx.rng)).collect::<Vec<_>>();
        if ctx.rng.one_in(3) {
            // A good day.
            calm.iter_mut().for_each(|m| (m.lost, m.slow) = ([0; 2], [0; 2]));
        }
        for (i, m) in calm.iter().enumerate() {
            by_tracker.push(m.clone());
            for h in &hashes {
                let count = if *h == hashes[0] { m.peers } else { ctx.rng.below(20) };
                let peers = places.some(count, &mut ctx.rng);
                let wrong = places.some(3, &mut ctx.rng);
                manners.insert((*h, i), (m.clone(), peers, wrong));
            }
        }
        let said = Arc::new(Mutex::new(Said::default()));
        let script = {
            let (said, manners, by_tracker, mut r) = (said.clone(), manners.clone(), by_tracker.clone(), ctx.rng.fork());
            // By client: requests of each kind so far.
            let mut had: HashMap<(usize, SocketAddr), [usize; 2]> = HashMap::new();
            let mut wrong_places = Places { used: places.used.clone() };
            Box::new(move |req: &Req| {
                let kind = if req.is_connect() {
                    0
                } else if req.is_announce() {
                    1
                } else {
                    return vec![];
                };
                let mut said = said.lock().unwrap();
                let m = &by_tracker[req.tracker];
                let h = had.entry((req.tracker, req.from)).or_default();
                h[kind] += 1;
                if h[kind] <= m.lost[kind] {
                    said.lost += 1;
                    return vec![];
                }
                let mut out = vec![];
                let wrong = wrong_places.some(r.below(4), &mut r);
                for _ in 0..m.forged[kind] {
                    said.forged += 1;
                    out.push(Out::now(forgery(req, &wrong, &mut r)));
                }
                let real = if kind == 0 {
                    let mut d = connect_response(req);
                    if m.long {
                        d.extend(r.bytes(7));
                    }
                    d
                } else {
                    let Some((_, peers, _)) = manners.get(&(req.hash().try_into().unwrap(), req.tracker)) else { return vec![] };
                    said.answered.insert((req.hash().try_into().unwrap(), req.tracker));
                    let mut d = announce_response(req, peers);
                    if !peers.is_empty() && r.one_in(4) {
                        // Entries that are no address of a peer, or one that was there, are none of the others' business.
                        for _ in 0..r.range(1, 3) {
                            let e: [u8; 6] = match r.below(6) {
                                0 => [0; 6],
                                1 => [255; 6],
                                2 => [0, 0, 0, 0, r.byte(), 7],
                                3 => [127, 0, 0, r.byte(), 0, 0],
                                4 => [224, 0, 0, 1, 26, 225],
                                _ => {
                                    let i = 20 + 6 * r.below(peers.len());
                                    d[i..i + 6].try_into().unwrap()
                                }
                            };
                            said.maybe.insert(SocketAddr::from(([e[0], e[1], e[2], e[3]], u16::from_be_bytes([e[4], e[5]]))));
                            let i = 20 + 6 * r.below(peers.len() + 1);
                            d.splice(i..i, e);
                        }
                    }
                    d.extend(r.bytes(m.tail));
                    let mut told = peers.clone();
                    if let Some(odd) = m.odd {
                        // An answer all the same, but one that is cut short or an error.
                        match odd {
                            0 => {
                                d.truncate(r.range(8, 19));
                                told.clear();
                            }
                            1 => {
                                d[3] = 3;
                                told.clear();
                            }
                            _ => (),
                        }
                        said.maybe.extend(peers);
                    }
                    if m.odd.is_none() {
                        said.told.extend(told);
                    }
                    d
                };
                if r.one_in(4) {
                    // It knows the request, but is someone else.
                    said.forged += 1;
                    let mut o = Out::now(if kind == 1 { announce_response(req, &wrong) } else { connect_response(req) });
                    if kind == 0 {
                        o.data[8..16].copy_from_slice(&r.bytes(8));
                    }
                    o.stranger = true;
                    out.push(o);
                }
                let real = match (kind, m.odd) {
                    (0, Some(2)) => real[..r.range(8, 15)].to_vec(),
                    _ => real,
                };
                let after = Duration::from_millis(m.slow[kind]);
                out.push(Out { after, data: real.clone(), stranger: false });
                if m.twice {
                    out.push(Out { after: after + Duration::from_millis(r.below(3) as u64), data: real, stranger: false });
                }
                out
            })
        };
        let mut w = inconclusive(World::start(vec![], move |_| script, Options::default()))?;
        for h in &hashes {
            let m = kit::torrent::magnet(h, &mut ctx.rng);
            match w.add(&m) {
                Ok(200..=299) => (),
                Ok(c) => return suspect(format!("adding {m} was answered with {c}")),
                Err(e) => return Err(Verdict::Inconclusive(e)),
            }
            added.insert(*h);
            std::thread::sleep(Duration::from_millis(*ctx.rng.pick(&[0, 0, 5, 50])));
        }
        let what = || format!("{} torrents; trackers: {by_tracker:?}", hashes.len());
        // The odd ones may never come to their announce.
        let odd = |i: usize| by_tracker[i].odd.is_some();
        let told = |w: &World| {
            let s = said.lock().unwrap();
            let c = contacted(w);
            let all = (0..ADDRESSES.len()).all(|i| odd(i) || added.iter().all(|h| s.answered.contains(&(*h, i))));
            all && s.told.iter().all(|p| c.contains(&p.to_string()))
        };
        let end = w.wait(|w| told(w), quiet(ctx) * 2, LIMIT * 2);
        if let End::Dead(s) = end {
            return violation(format!("the program died ({s}): {}; {}", w.summary(), what()));
        }
        // Whoever else is contacted.
        let long = ctx.rng.one_in(4);
        settle(ctx, &mut w, Duration::from_millis(if long { 2500 } else { 500 }));
        // Odd ones may have answered only now.
        w.wait(|w| told(w), quiet(ctx) * 2, LIMIT);
        crashed(&w)?;
        well_formed(&w, &added)?;
        only_trackers(&w)?;
        let s = said.lock().unwrap();
        let seen = contacted(&w);
        for c in &seen {
            let a: SocketAddr = c.parse().unwrap_or(SocketAddr::from(([0; 4], 0)));
            if !s.told.contains(&a) && !s.maybe.contains(&a) {
                let unsaid = manners.values().any(|(_, p, _)| p.contains(&a));
                return violation(format!("{c} was contacted, which no answer listed{}; {}", if unsaid { " (yet)" } else { "" }, what()));
            }
        }
        let missing: Vec<String> = s.told.iter().map(|p| p.to_string()).filter(|p| !seen.contains(p)).collect();
        if let Some(p) = missing.first() {
            let of: Vec<_> = manners.iter().filter(|(_, v)| v.1.iter().any(|a| a.to_string() == *p)).map(|(k, v)| (k.1, v.1.len(), v.0.clone())).collect();
            return suspect(format!("{p} and {} others were listed by trackers, but not contacted; tracker, peers, manner: {of:?}", missing.len() - 1));
        }
        for (i, a) in announced(&w).iter().enumerate() {
            if let (false, Some(h)) = (odd(i), added.difference(a).next()) {
                return suspect(format!("{} was not announced to tracker {} ({:?})", hex(h), ADDRESSES[i], by_tracker[i]));
            }
        }
        packets(&w, hashes.len())?;
        Ok(Obs::new(hash64(what().as_bytes()), true, what())
            .count("peers listed and contacted", s.told.len())
            .count("forged datagrams ignored", s.forged)
            .count("requests lost", s.lost)
            .count("datagrams to trackers", w.trackers.seen().len()))
    })
}

/// No tracker is sent more than 16 packets per torrent.
fn packets(w: &World, torrents: usize) -> Res<usize> {
    let mut by: BTreeMap<usize, usize> = BTreeMap::new();
    for q in w.trackers.seen() {
        *by.entry(q.tracker).or_default() += 1;
    }
    match by.iter().find(|(_, n)| **n > 16 * torrents) {
        Some((i, n)) => violation(format!("tracker {} was sent {n} packets for {torrents} torrents", ADDRESSES[*i])),
        None => Ok(by.values().copied().max().unwrap_or(0)),
    }
}

/// Trackers that do not answer, or not all that is asked.
pub fn c19_silent(ctx: &mut Ctx) -> Verdict {
    case(|| {
        let mut r = ctx.rng.fork();
        let modes: Vec<usize> = (0..ADDRESSES.len()).map(|_| r.below(4)).collect();
        let (m, mut s) = (modes.clone(), ctx.rng.fork());
        let script = Box::new(move |req: &Req| match m[req.tracker] {
            0 => vec![],
            1 if req.is_connect() => vec![Out::now(connect_response(req))],
            1 => vec![],
            // Never what is asked for.
            2 => vec![Out::now(forgery(req, &[], &mut s))],
            _ if req.is_connect() => vec![Out::now(connect_response(req))],
            _ => vec![Out::now(forgery(req, &[], &mut s))],
        });
        let mut w = inconclusive(World::start(vec![], move |_| script, Options::default()))?;
        let h: Hash = ctx.rng.bytes(20).try_into().unwrap();
        let m = kit::torrent::magnet(&h, &mut ctx.rng);
        let _ = inconclusive(w.add(&m))?;
        let added = BTreeSet::from([h]);
        let (mut count, mut since, t0) = (0, Instant::now(), Instant::now());
        // Until nothing was sent for so long that nothing will be.
        while since.elapsed() < Duration::from_secs(5) {
            if t0.elapsed() > Duration::from_secs(100) {
                return suspect(format!("{} packets to trackers in {:?}, and no end", w.trackers.seen().len(), t0.elapsed()));
            }
            let n = w.trackers.seen().len();
            if n != count {
                (count, since) = (n, Instant::now());
            }
            std::thread::sleep(Duration::from_millis(100));
            let t = Instant::now();
            match w.post("/add/magnet", b"magnet:?", Duration::from_secs(20)) {
                Ok((400..=499, _)) => (),
                other => return suspect(format!("while trackers are silent, a post without magnet was answered with {other:?}")),
            }
            if t.elapsed() > Duration::from_secs(5) {
                return suspect(format!("while trackers are silent, the API took {:?}", t.elapsed()));
            }
        }
        crashed(&w)?;
        if !w.alive() {
            return violation("the program died of silent trackers");
        }
        well_formed(&w, &added)?;
        let most = packets(&w, 1)?;
        for (i, mode) in modes.iter().enumerate() {
            let seen = w.trackers.seen();
            let (c, a) = (seen.iter().filter(|q| q.tracker == i && q.is_connect()).count(), seen.iter().filter(|q| q.tracker == i && q.is_announce()).count());
            if (mode % 2 == 0 && c < 2) || (mode % 2 == 1 && a < 2) {
                return suspect(format!("tracker {}, which does not answer, was sent {c} connects and {a} announces: none is sent again", ADDRESSES[i]));
            }
        }
        if let Some(c) = contacted(&w).first() {
            return violation(format!("a connection to {c}, though no tracker told a peer"));
        }
        Ok(Obs::new(hash64(format!("{modes:?}").as_bytes()), true, format!("modes {modes:?}"))
            .count("datagrams to trackers", count)
            .count("most packets to a tracker, summed", most))
    })
}

/// Many at once.
pub fn c19_burst(ctx: &mut Ctx) -> Verdict {
    case(|| {
        let n: usize = *ctx.rng.pick(&[20, 40, 64, 100]);
        let hashes: Vec<Hash> = (0..n).map(|_| ctx.rng.bytes(20).try_into().unwrap()).collect();
        let mut w = inconclusive(World::start(vec![], |_| tracker::reporting(vec![]), Options::default()))?;
        let magnets: Vec<String> = hashes.iter().map(|h| kit::torrent::magnet(h, &mut ctx.rng)).collect();
        let threads = *ctx.rng.pick(&[2, 8, 16, n]);
        let bad = Mutex::new(vec![]);
        std::thread::scope(|s| {
            for part in magnets.chunks(n.div_ceil(threads)) {
                let (w, bad) = (&w, &bad);
                s.spawn(move || {
                    for m in part {
                        match w.add(m) {
                            Ok(200..=299) => (),
                            other => bad.lock().unwrap().push(format!("{m}: {other:?}")),
                        }
                    }
                });
            }
        });
        if let Some(b) = bad.lock().unwrap().first() {
            return suspect(format!("of {n} magnets posted at once, {b}"));
        }
        let added: BTreeSet<Hash> = hashes.iter().copied().collect();
        let end = w.wait(|w| announced(w).iter().all(|a| added.is_subset(a)), quiet(ctx), LIMIT);
        if let End::Dead(s) = end {
            return violation(format!("the program died ({s}): {}", w.summary()));
        }
        crashed(&w)?;
        well_formed(&w, &added)?;
        let a = announced(&w);
        if let Some((i, a)) = a.iter().enumerate().find(|(_, a)| !added.is_subset(a)) {
            return suspect(format!("of {n} torrents added by {threads} at a time, {} were not announced to tracker {}", added.difference(a).count(), ADDRESSES[i]));
        }
        Ok(Obs::new(hash64(format!("{hashes:?}").as_bytes()), true, format!("{n} torrents, {threads} at a time"))
            .count("torrents added", n)
            .count("datagrams to trackers", w.trackers.seen().len()))
    })
}

// C20

/// What HTTP trackers say, as the program is when it has such.
pub fn c20(ctx: &mut Ctx) -> Verdict {
    case(|| {
        if !kit::world::target("rust_bit_http").exists() {
            return Ok(Obs::new(0, false, "trackers of the program that speak HTTP could not be made"));
        }
        let download = ctx.rng.one_in(3);
        let t = gen(ctx, &Shape { max_content: 60_000, max_pieces: 6, ..Shape::default() });
        let n = ctx.rng.range(1, 3);
        let specs = if download { honest(ctx, &t, n) } else { vec![] };
        let swarm = inconclusive(Swarm::start(specs).map_err(|e| e.to_string()))?;
        let r = &mut ctx.rng;
        let mut hashes: Vec<Hash> = vec![t.hash];
        if r.one_in(2) {
            hashes.push(r.bytes(20).try_into().unwrap());
        }
        let lists = kit::world::spread(&swarm.addrs, r, 12);
        // By tracker and torrent.
        let mut answers: Vec<HashMap<Hash, (String, Answer, Told)>> = vec![];
        let mut slow = 0;
        for list in lists {
            let mut of = HashMap::new();
            for h in &hashes {
                let (what, a, means) = loop {
                    let (what, a, means) = if download && *h == t.hash && !list.is_empty() {
                        http::of_peers(&tracker::compact(&list), r)
                    } else {
                        http::answer(r)
                    };
                    match &means {
                        // The real ones.
                        Told::Peers(l) if !download && l.iter().any(|p| p.starts_with("127.0.0.1:")) => (),
                        Told::Open => (),
                        // What waits for it waits for a while.
                        _ if a.hang && slow > 3 => (),
                        _ => break (what, a, means),
                    }
                };
                slow += a.hang as usize;
                of.insert(*h, (what, a, means));
            }
            answers.push(of);
        }
        let hash_of = |head: &str| -> Option<Hash> {
            let target = head.split(' ').nth(1)?;
            http::parameters(target.split_once('?')?.1).into_iter().find(|p| p.0 == "info_hash")?.1.try_into().ok()
        };
        let mut servers = vec![];
        for of in &answers {
            let of = of.clone();
            let nothing = Answer { bytes: vec![], pause: None, hang: false };
            let script = move |head: &str| hash_of(head).and_then(|h| of.get(&h).map(|a| a.1.clone())).unwrap_or(nothing.clone());
            servers.push(inconclusive(http::Server::start(script).map_err(|e| e.to_string()))?);
        }
        let udp = inconclusive(Trackers::start(Box::new(|_| vec![])).map_err(|e| e.to_string()))?;
        let scratch = inconclusive(Scratch::new().map_err(|e| e.to_string()))?;
        let opts = Options { http: servers.iter().map(|s| s.port).collect(), ..Options::default() };
        let mut w = inconclusive(World::start_in(scratch, swarm, udp, opts))?;
        for h in &hashes {
            match w.add(&kit::torrent::magnet(h, &mut ctx.rng)) {
                Ok(200..=299) => (),
                Ok(c) => return suspect(format!("adding {} was answered with {c}", hex(h))),
                Err(e) => return Err(Verdict::Inconclusive(e)),
            }
        }
        let said: BTreeSet<String> = answers.iter().flat_map(|a| a.values()).filter_map(|a| if let Told::Peers(l) = &a.2 { Some(l.clone()) } else { None }).flatten().collect();
        // Some entries are no address of a peer.
        let due: BTreeSet<&String> = said.iter().filter(|p| !p.ends_with(":0") && p.split('.').next().and_then(|b| b.parse().ok()).is_some_and(|b: u8| b > 0 && b < 224)).collect();
        let all = |w: &World| {
            let c = contacted(w);
            servers.iter().all(|s| s.seen().len() >= hashes.len()) && due.iter().all(|p| c.contains(*p))
        };
        if let End::Dead(s) = w.wait(|w| all(w), quiet(ctx) * 2, LIMIT) {
            return violation(format!("the program died ({s}): {}", w.summary()));
        }
        if servers.iter().all(|s| s.seen().is_empty()) && !w.trackers.seen().is_empty() {
            return Ok(Obs::new(0, false, "the trackers of the program still speak UDP"));
        }
        if download {
            completed(ctx, &mut w, &t, "honest peers reported by trackers that speak HTTP")?;
        }
        settle(ctx, &mut w, Duration::from_millis(300));
        crashed(&w)?;
        let seen = contacted(&w);
        let mut requests = 0;
        for (i, s) in servers.iter().enumerate() {
            for h in &hashes {
                if !s.seen().iter().any(|head| hash_of(head) == Some(*h)) {
                    return suspect(format!("tracker {} was not asked for {}", ADDRESSES[i], hex(h)));
                }
            }
            for head in s.seen() {
                requests += 1;
                let Some(h) = hash_of(&head).filter(|h| hashes.contains(h)) else {
                    return violation(format!("tracker {} was asked {head:?}; added were {:?}", ADDRESSES[i], hashes.iter().map(|h| hex(h)).collect::<Vec<_>>()));
                };
                if let Some(flaw) = http::request_flaw(&head, "/announce", "", &h) {
                    return violation(format!("tracker {}: {flaw}", ADDRESSES[i]));
                }
            }
        }
        if let Some(p) = seen.iter().find(|p| !said.contains(*p)) {
            return violation(format!("{p} was contacted, which no answer listed: {:?}", answers.iter().flat_map(|a| a.values().map(|a| &a.0)).collect::<Vec<_>>()));
        }
        if let Some(p) = due.iter().find(|p| !seen.contains(**p)) {
            let by: Vec<_> = answers.iter().enumerate().flat_map(|(i, a)| a.values().map(move |a| (i, a))).filter(|(_, a)| matches!(&a.2, Told::Peers(l) if l.contains(*p))).map(|(i, a)| (i, &a.0)).collect();
            return suspect(format!("{p} was listed by {by:?}, but not contacted; {}", w.summary()));
        }
        let what = format!("{} torrents, download: {download}, answers: {:?}", hashes.len(), answers.iter().flat_map(|a| a.values().map(|a| &a.0)).collect::<Vec<_>>());
        Ok(Obs::new(hash64(what.as_bytes()), requests > 0, what)
            .count("requests checked", requests)
            .count("peers listed and contacted", due.len()))
    })
}
