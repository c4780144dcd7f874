//! What the program says to peers, and how it takes what they say.
use crate::sim::*;
use kit::benc::{self, Ref, Val};
use kit::peer::{metadata_request, Ev, Event, Greet, Seg, Spec};
use kit::torrent::{padded, Shape, Torrent};
use kit::world::Options;
use kit::{hash64, hex, show, Ctx, Obs, Verdict};
use std::collections::HashSet;
use std::sync::Arc;

/// C04: everything sent on a connection is the protocol's.
fn conforms(t: &Torrent, ut_metadata: Option<u64>, conv: &[Event]) -> Result<usize, String> {
    let (mut shaken, mut interested, mut messages) = (false, false, 0);
    for e in conv {
        match &e.ev {
            Ev::Handshake(h) => {
                shaken = true;
                if h[0] != 19 || &h[1..20] != b"BitTorrent protocol" {
                    return Err(format!("a handshake starts with {}", show(&h[..20])));
                }
                if h[28..48] != t.hash {
                    return Err(format!("a handshake has info hash {}, added was {}", hex(&h[28..48]), hex(&t.hash)));
                }
                if h[25] & 0x10 == 0 {
                    return Err(format!("a handshake does not announce the extension protocol it uses: {}", hex(&h[20..28])));
                }
                let id = &h[48..68];
                if !id.iter().all(|b| (0x20..0x7f).contains(b)) {
                    return Err(format!("a handshake has peer id {}", show(id)));
                }
            }
            Ev::Malformed(b) => return Err(format!("bytes that are no message: {}", show(b))),
            Ev::KeepAlive => (),
            Ev::Msg(id, body) => {
                if !shaken {
                    return Err("a message before the handshake".into());
                }
                messages += 1;
                match id {
                    0..=3 if body.is_empty() => interested |= *id == 2,
                    5 if body.len() == t.pieces().div_ceil(8) => (),
                    4 if body.len() == 4 => (),
                    6 | 8 if body.len() == 12 => {
                        let n = |i: usize| u32::from_be_bytes(body[i..i + 4].try_into().unwrap()) as usize;
                        let (index, begin, length) = (n(0), n(4), n(8));
                        if !interested {
                            return Err(format!("requested piece {index} without being interested"));
                        }
                        if index >= t.pieces() {
                            return Err(format!("requested piece {index} of {}", t.pieces()));
                        }
                        let size = t.piece(index).len();
                        if length == 0 || length > 16384 || begin + length > size {
                            return Err(format!("requested {length} bytes from {begin} of piece {index}, which has {size}"));
                        }
                    }
                    20 => {
                        let sub = *body.first().ok_or("an extension message without an id")?;
                        let v = match benc::decode(&body[1..]) {
                            Ref::Valid(v @ Val::Dict(_), n) if n == body.len() - 1 => v,
                            _ => return Err(format!("an extension message that is no dictionary: {}", show(body))),
                        };
                        if sub == 0 {
                            match v.get("m").and_then(|m| m.get("ut_metadata")) {
                                Some(Val::Int(1..=255)) => (),
                                _ => return Err(format!("an extension handshake without an id for ut_metadata: {}", show(body))),
                            }
                        } else if Some(sub as u64) != ut_metadata {
                            return Err(format!("an extension message with id {sub}, announced was {ut_metadata:?}"));
                        } else if let Some(piece) = metadata_request(body) {
                            let count = t.metadata.len().div_ceil(16384);
                            if piece >= count {
                                return Err(format!("requested metadata piece {piece} of {count}"));
                            }
                        } else {
                            return Err(format!("not a metadata request: {}", show(body)));
                        }
                    }
                    _ => return Err(format!("message {id} with body {}", show(body))),
                }
            }
            _ => (),
        }
    }
    Ok(messages)
}

fn announced(ext: &Val) -> Option<u64> {
    match ext.get("m").and_then(|m| m.get("ut_metadata")) {
        Some(Val::Int(n)) => Some(*n),
        _ => None,
    }
}

pub fn c04(ctx: &mut Ctx) -> Verdict {
    talk(ctx, false)
}

/// C23 from outside: peers make of what the program sends, and the program of what peers send, what was meant.
pub fn c23(ctx: &mut Ctx) -> Verdict {
    talk(ctx, true)
}

fn talk(ctx: &mut Ctx, to_the_end: bool) -> Verdict {
    case(|| {
        let mut t = gen(ctx, &Shape::default());
        if ctx.rng.one_in(25) {
            // Metadata of hundreds of messages.
            let size = ctx.rng.range(1_600_000, 6_000_000);
            t = Arc::new(padded(&t, size));
        }
        let n = ctx.rng.range(1, 4);
        let mut specs = honest(ctx, &t, n);
        if t.metadata.len() > 1_000_000 {
            for s in &mut specs {
                (s.seg, s.noise, s.lag) = (Seg::Whole, 0, None);
            }
        }
        let ids: Vec<_> = specs.iter().map(|s| announced(&s.ext)).collect();
        let mut w = start(ctx, &t, specs, Options::default())?;
        let end = completed(ctx, &mut w, &t, "honest peers");
        let (mut messages, mut conns, mut peer_ids) = (0, 0, HashSet::new());
        for (peer, conn, conv) in conversations(&w.swarm.events()) {
            match conforms(&t, ids[peer], &conv) {
                Ok(n) => messages += n,
                Err(e) => return violation(format!("connection {conn} to peer {peer}: {e}")),
            }
            if has_handshake(&conv) {
                conns += 1;
            }
            for e in &conv {
                if let Ev::Handshake(h) = &e.ev {
                    peer_ids.insert(h[48..68].to_vec());
                }
            }
        }
        if messages == 0 || to_the_end {
            end?;
        }
        Ok(Obs::new(hash64(&t.hash), messages > 5, format!("{conns} connections for {}", t.describe()))
            .count("handshaken connections", conns)
            .count("messages", messages)
            .count("peer ids", peer_ids.len()))
    })
}

/// C05 from outside: however what honest peers send is cut and padded, the download is the same.
pub fn c05(ctx: &mut Ctx) -> Verdict {
    case(|| {
        let t = gen(ctx, &Shape { max_content: 150_000, max_pieces: 10, ..Shape::default() });
        let n = ctx.rng.range(1, 3);
        let mut specs = honest(ctx, &t, n);
        let mut segs = vec![];
        for s in &mut specs {
            s.seg = match ctx.rng.below(4) {
                0 => Seg::Chunks { max: 1, pause_us: 0, long_ms: 130, long_one_in: 150 },
                1 => Seg::Chunks { max: 5, pause_us: 10, long_ms: 130, long_one_in: 80 },
                2 => Seg::Chunks { max: 1460, pause_us: 50, long_ms: 250, long_one_in: 40 },
                _ => Seg::Chunks { max: 20000, pause_us: 200, long_ms: 120, long_one_in: 10 },
            };
            s.noise = *ctx.rng.pick(&[0, 1, 2]);
            if ctx.rng.one_in(2) {
                s.greet.insert(1, Greet::KeepAlive);
            }
            segs.push(format!("{:?}", s.seg));
        }
        if ctx.rng.one_in(3) {
            // All of them far away.
            let ms = *ctx.rng.pick(&[150, 300, 600]);
            for s in &mut specs {
                s.lag = Some((ms, 1));
                s.seg = Seg::Whole;
            }
            segs.push(format!("{ms} ms away"));
        }
        if segs.len() == specs.len() && ctx.rng.one_in(3) {
            // A message every now and then takes seconds to arrive.
            let (parts, ms) = (ctx.rng.range(8, 30), ctx.rng.range(60, 200) as u64);
            for s in &mut specs {
                s.seg = Seg::Drip { parts, ms, one_in: 10 + 3 * t.pieces() };
            }
            segs.push(format!("{parts} parts, one every {ms} ms"));
        }
        let mut w = start(ctx, &t, specs, Options::default())?;
        completed(ctx, &mut w, &t, &format!("honest peers whose messages arrive cut as {segs:?}"))?;
        Ok(Obs::new(hash64(format!("{segs:?}{}", hex(&t.hash)).as_bytes()), true, format!("{segs:?}: {}", t.describe()))
            .count("block requests", w.requests().len()))
    })
}

/// C12: on every connection the requests for a piece tile it.
pub fn c12(ctx: &mut Ctx) -> Verdict {
    case(|| {
        let big = ctx.idx % 40 == 7;
        let t = if big {
            // Blocks that begin beyond what three bytes hold.
            let piece_length = (1 << 25) + ctx.rng.below(2) * ctx.rng.below(20_000);
            let n = piece_length + ctx.rng.range(1, 1 << 23);
            let files = vec![kit::torrent::File { path: vec!["big".into()], length: n }];
            Arc::new(kit::torrent::build(false, "big", files, piece_length, ctx.rng.bytes(n), false))
        } else {
            gen(ctx, &Shape { max_files: 3, ..Shape::default() })
        };
        let n = ctx.rng.range(1, 3);
        let specs = if big { (0..n).map(|_| Spec::honest(&t)).collect() } else { honest(ctx, &t, n) };
        let mut w = start(ctx, &t, specs, Options::default())?;
        let end = completed(ctx, &mut w, &t, "honest peers");
        let (mut tiled, mut requests, mut shapes) = (HashSet::new(), 0, HashSet::new());
        for (peer, conn, conv) in conversations(&w.swarm.events()) {
            let asked: Vec<(usize, usize, usize)> = conv
                .iter()
                .filter_map(|e| match &e.ev {
                    Ev::Msg(6, b) if b.len() == 12 => {
                        let n = |i: usize| u32::from_be_bytes(b[i..i + 4].try_into().unwrap()) as usize;
                        Some((n(0), n(4), n(8)))
                    }
                    _ => None,
                })
                .collect();
            requests += asked.len();
            let mut by_piece: std::collections::BTreeMap<usize, Vec<(usize, usize)>> = Default::default();
            for (i, b, l) in asked {
                if i >= t.pieces() {
                    return violation(format!("piece {i} of {} was requested", t.pieces()));
                }
                by_piece.entry(i).or_default().push((b, l));
            }
            for (i, mut blocks) in by_piece {
                let size = t.piece(i).len();
                let shown = format!("{blocks:?}");
                blocks.sort();
                let mut at = 0;
                for (b, l) in &blocks {
                    if *l == 0 || *l > 16384 || b + l > size {
                        return violation(format!("piece {i} has {size} bytes; {l} bytes from {b} were requested"));
                    }
                    if *b != at {
                        let what = if *b < at { "overlap" } else { "leave a gap" };
                        return violation(format!(
                            "connection {conn} to peer {peer}: requests {what} at {b} in piece {i} of {size} bytes: {shown}"
                        ));
                    }
                    at += l;
                }
                // Only a connection that was cut short may have asked for less.
                if at == size {
                    tiled.insert(i);
                    shapes.insert((size, blocks.len()));
                }
            }
        }
        if tiled.len() < t.pieces() {
            end?;
            return violation(format!("only {} of {} pieces were requested whole", tiled.len(), t.pieces()));
        }
        Ok(Obs::new(hash64(format!("{} {}", t.piece_length, t.content.len()).as_bytes()), true,
            format!("{} requests over {}", requests, t.describe()))
            .count("block requests", requests)
            .count("pieces tiled", tiled.len())
            .count("shapes of pieces", shapes.len()))
    })
}
