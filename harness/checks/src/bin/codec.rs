//! C23 and C05, in-process: the messages of peers, and how they are cut out of a stream.
use kit::benc::{self, Ref, Val};
use kit::guard::guarded;
use kit::{hash64, hex, show, Ctx, Obs, Rng, Verdict};
use std::collections::{BTreeMap, HashMap};
use std::io::Write;
use std::net::{TcpListener, TcpStream};
use std::time::{Duration, Instant};
use sut::messages::{self, ContentType, Message};
use sut::peer::stream::{read_stream, StreamInterface};

#[global_allocator]
static ALLOC: kit::guard::Budgeted = kit::guard::Budgeted;

/// The body of an extension message, and what it says if that is certain.
fn extension_body(r: &mut Rng) -> Vec<u8> {
    let mut d: BTreeMap<Vec<u8>, Val> = BTreeMap::new();
    let mut put = |r: &mut Rng, k: &str, v: Val| {
        if r.one_in(2) {
            d.insert(k.as_bytes().to_vec(), v);
        }
    };
    let n = *r.pick(&[0, 1, 2, 3, 255, 256, u32::MAX as u64, u64::MAX]);
    put(r, "msg_type", benc::int(n));
    let n = benc::gen_int(r);
    put(r, "piece", benc::int(n));
    let n = benc::gen_int(r);
    put(r, "metadata_size", benc::int(n));
    let n = benc::gen_int(r);
    put(r, "total_size", benc::int(n));
    let m: BTreeMap<Vec<u8>, Val> = (0..r.below(6))
        .map(|i| {
            let name = match r.below(3) {
                0 => "ut_metadata".to_string(),
                1 => "ut_pex".to_string(),
                _ => format!("x{i}{}", benc::gen_text(r, 5)),
            };
            let id = match r.below(8) {
                0 => benc::int(*r.pick(&[256, 257, 511, 65536, u64::MAX])),
                1 => benc::gen_val(r, 1),
                2 => benc::int(0),
                3 => benc::int(255),
                _ => benc::int(r.byte() as u64),
            };
            (name.into_bytes(), id)
        })
        .collect();
    put(r, "m", Val::Dict(m));
    let t = benc::gen_text(r, 9);
    put(r, "v", benc::bytes(t));
    let b = r.bytes(4);
    put(r, "yourip", Val::Bytes(b));
    if r.one_in(6) {
        // A value of the wrong type.
        let k = *r.pick(&["msg_type", "piece", "metadata_size", "m", "total_size"]);
        d.insert(k.as_bytes().to_vec(), benc::gen_val(r, 1));
    }
    let mut b = vec![r.byte()];
    b.extend(Val::Dict(d).encode());
    let tail = if r.one_in(2) { 0 } else { r.below(17_000) };
    b.extend(r.bytes(tail));
    b
}

fn body(id: u8, r: &mut Rng) -> Vec<u8> {
    let n = match r.below(5) {
        0 => 0,
        1 => r.below(9),
        2 if r.one_in(60) => *r.pick(&[65_535, 65_536, 65_544, 100_000, (1 << 20) - 1]),
        2 => *r.pick(&[4, 7, 8, 9, 12, 13, 67, 68, 69, 16392]),
        _ => r.below(200),
    };
    match id {
        20 => match r.below(6) {
            0 => r.bytes(n),
            1 => {
                let mut b = extension_body(r);
                b.truncate(r.below(b.len()));
                b
            }
            2 => {
                let mut b = extension_body(r);
                let at = r.below(b.len());
                b[at] = *r.pick(b"die:l0129\xff-");
                b
            }
            3 => {
                let mut b = vec![r.byte()];
                b.extend(benc::gen_val(r, 3).encode());
                b.extend(r.bytes(n));
                b
            }
            _ => extension_body(r),
        },
        _ => r.bytes(n),
    }
}

fn number(v: Option<&Val>) -> Option<u64> {
    match v {
        Some(Val::Int(n)) => Some(*n),
        _ => None,
    }
}

/// What the protocol says of a message, against what was made of it.
fn compare(id: u8, body: &[u8], got: &Result<Message, String>) -> Result<bool, String> {
    let wrong = |what: String| Err(format!("message {id} with body {}: {what}", show(body)));
    let m = match got {
        Ok(m) => m,
        // Bodies too short or malformed are refused; nothing else is.
        Err(e) => {
            let may = match id {
                6 | 7 => body.len() < 8,
                19 => body.len() < 68,
                20 => body.is_empty() || !matches!(benc::decode(&body[1..]), Ref::Valid(Val::Dict(_), _)),
                _ => false,
            };
            return if may { Ok(false) } else { wrong(format!("it is refused ({e})")) };
        }
    };
    if m.get_id() != id {
        return wrong(format!("it has id {}", m.get_id()));
    }
    match (id, m.get_content()) {
        (5, ContentType::Bitfield(b)) => {
            let bits: Vec<bool> = body.iter().flat_map(|byte| (0..8).map(move |i| byte & (1 << (7 - i)) != 0)).collect();
            if b.get_bitfield() != body || b.get_bitfield_as_bit_vector() != bits || m.get_content_data() != body {
                return wrong(format!("its bits are {:?}", b.get_bitfield_as_bit_vector()));
            }
        }
        (6 | 7, ContentType::Request(q)) => {
            if body.len() < 8 {
                return wrong("it is too short for a block, and accepted".into());
            }
            if q.get_block_data() != body[8..] || m.get_content_data() != body[8..] {
                return wrong(format!("its data is {}", show(&q.get_block_data())));
            }
        }
        (19, ContentType::Handshake(h)) => {
            if body.len() < 68 {
                return wrong("it is too short for a handshake, and accepted".into());
            }
            if h.get_info_hash() != body[28..48] {
                return wrong(format!("its info hash is {}", hex(&h.get_info_hash())));
            }
        }
        (20, ContentType::Extension(e)) => {
            if body.is_empty() {
                return wrong("it is empty, and accepted".into());
            }
            match benc::decode(&body[1..]) {
                Ref::Invalid => {
                    let nothing = e.get_metadata_size().is_none() && e.get_extensions().is_empty() && !m.is_extension_data_message();
                    return if nothing { Ok(false) } else { wrong("its dictionary is malformed, and accepted".into()) };
                }
                Ref::Unspecified => return Ok(false),
                Ref::Valid(d @ Val::Dict(_), n) => {
                    if e.get_data() != body[1 + n..] || m.get_content_data() != body[1 + n..] {
                        return wrong(format!("the data after its dictionary is {}", show(&e.get_data())));
                    }
                    let size = number(d.get("metadata_size"));
                    if e.get_metadata_size().map(|n| n as u64) != size {
                        return wrong(format!("its metadata size is {:?}", e.get_metadata_size()));
                    }
                    if m.is_extension_data_message() != (number(d.get("msg_type")) == Some(1)) {
                        return wrong(format!("is it data: {}", m.is_extension_data_message()));
                    }
                    let mut want = HashMap::new();
                    if let Some(Val::Dict(m)) = d.get("m") {
                        for (k, v) in m {
                            if let (Ok(k), Val::Int(n @ 0..=255)) = (String::from_utf8(k.clone()), v) {
                                want.insert(k, *n as u8);
                            }
                        }
                    }
                    if e.get_extensions() != &want {
                        return wrong(format!("its extensions are {:?}, and should be {want:?}", e.get_extensions()));
                    }
                }
                Ref::Valid(..) => return Ok(false),
            }
        }
        (5 | 6 | 7 | 19 | 20, c) => return wrong(format!("it is taken for {c:?}")),
        _ => {
            if !m.get_content_data().is_empty() {
                return wrong(format!("it has no data, and gives {}", show(&m.get_content_data())));
            }
        }
    }
    Ok(true)
}

fn parse(ctx: &mut Ctx) -> Verdict {
    let (mut key, mut sample, mut understood, mut refused) = (0, String::new(), 0, 0);
    for _ in 0..60 {
        let r = &mut ctx.rng;
        let id = if r.one_in(8) { r.byte() } else { *r.pick(&[0, 1, 2, 3, 4, 5, 5, 6, 7, 7, 8, 9, 19, 20, 20, 20, 20]) };
        let b = body(id, r);
        let length = if r.one_in(5) { r.u64() as u32 } else { b.len() as u32 + 1 };
        key ^= hash64(&[&[id], &b[..]].concat());
        let input = b.clone();
        let got = match guarded((8 << 20) + b.len() * 2048, move || Message::new_raw(input, length, id).map_err(|e| e.to_string())) {
            Ok(g) => g,
            Err(p) => return Verdict::Violation(format!("message {id} with body {} crashes: {p}", show(&b))),
        };
        match guarded((8 << 20) + b.len() * 2048, || compare(id, &b, &got)) {
            Ok(Ok(true)) => understood += 1,
            Ok(Ok(false)) => refused += 1,
            Ok(Err(e)) => return Verdict::Violation(e),
            Err(p) => return Verdict::Violation(format!("what is made of message {id} with body {} crashes: {p}", show(&b))),
        }
        // What it says when sent on.
        if let (Ok(m), 5..=7, true) = (&got, id, length == b.len() as u32 + 1) {
            let want = [&length.to_be_bytes()[..], &[id], &b].concat();
            if m.as_bytes() != want {
                return Verdict::Violation(format!("message {id} with body {} is sent on as {}", show(&b), show(&m.as_bytes())));
            }
        }
        sample = format!("{id}: {}", show(&b));
    }
    Verdict::Ok(Obs::new(key, understood > 0, sample).count("messages understood", understood).count("messages refused or left open", refused))
}

fn serialise(ctx: &mut Ctx) -> Verdict {
    let (mut key, mut sample, n) = (0, String::new(), 40);
    for _ in 0..n {
        let r = &mut ctx.rng;
        let num = |r: &mut Rng| match r.below(4) {
            0 => r.below(300) as u32,
            1 => *r.pick(&[0, 1, 255, 256, 16384, 65535, 65536, 1 << 24, 1 << 31, u32::MAX]),
            _ => r.u64() as u32,
        };
        let (what, got, want) = match r.below(4) {
            0 => {
                let (i, b, l) = (num(r), num(r), num(r));
                let want = [&[0, 0, 0, 13, 6][..], &i.to_be_bytes(), &b.to_be_bytes(), &l.to_be_bytes()].concat();
                (format!("request {i} {b} {l}"), guarded(1 << 20, || messages::new_request(i, b, l).as_bytes()), want)
            }
            1 => ("interested".into(), guarded(1 << 20, || messages::new_interested().as_bytes()), vec![0, 0, 0, 1, 2]),
            2 => {
                let (id, piece) = (r.byte(), num(r) as usize);
                let d = benc::dict([("msg_type", benc::int(0)), ("piece", benc::int(piece as u64))]).encode();
                let want = [&(d.len() as u32 + 2).to_be_bytes()[..], &[20, id], &d].concat();
                (format!("metadata request {id} {piece}"), guarded(1 << 20, || messages::new_metadata(id, piece).as_bytes()), want)
            }
            _ => {
                let hash = r.bytes(20);
                let peer: String = (0..20).map(|_| *r.pick(b"abcXYZ019-") as char).collect();
                let want = [&b"\x13BitTorrent protocol\0\0\0\0\0\x10\0\0"[..], &hash, peer.as_bytes()].concat();
                let (what, h) = (format!("handshake {}", hex(&hash)), hash.clone());
                let got = guarded(1 << 20, || messages::new_handshake(&hash, &peer).as_bytes());
                if let Ok(bytes) = &got {
                    let back = Message::new_raw(bytes.clone(), 68, 19);
                    match back.as_ref().map(|m| (m.get_content(), m.as_bytes())) {
                        Ok((ContentType::Handshake(b), again)) if b.get_info_hash() == h && again == *bytes => (),
                        other => return Verdict::Violation(format!("a {what} comes back as {other:?}")),
                    }
                }
                (what, got, want)
            }
        };
        let got = match got {
            Ok(g) => g,
            Err(p) => return Verdict::Violation(format!("a {what} crashes: {p}")),
        };
        if got != want {
            return Verdict::Violation(format!("a {what} is sent as {}, and should be {}", show(&got), show(&want)));
        }
        if got.len() > 5 && what.starts_with('r') {
            match Message::new_raw(got[5..].to_vec(), 13, got[4]) {
                Ok(m) if m.as_bytes() == want => (),
                other => return Verdict::Violation(format!("a {what} comes back as {other:?}")),
            }
        }
        key ^= hash64(what.as_bytes());
        sample = what;
    }
    Verdict::Ok(Obs::new(key, true, sample).count("messages serialised", n))
}

/// Messages over a real connection, cut into segments anyhow.
fn framing(ctx: &mut Ctx) -> Verdict {
    let r = &mut ctx.rng;
    let (mut stream, mut want, mut ends) = (vec![], vec![], vec![]);
    for i in 0..r.range(3, 25) {
        match r.below(12) {
            0 => stream.extend([0; 4]),
            1 if i == 0 || r.one_in(3) => {
                let h = [&b"\x13BitTorrent protocol"[..], &r.bytes(48)].concat();
                stream.extend(&h);
                want.push((h, 19));
            }
            _ => {
                let n = if r.one_in(100) {
                    *r.pick(&[65_534, 65_535, 65_536, 131_072 + 8, 300_000, (1 << 20) - 2, (1 << 20) - 1])
                } else {
                    *r.pick(&[0, 0, 1, 4, 8, 12, 67, 68, 255, 256, 1000, 16384 + 8, 20_000, 60_000])
                };
                let id = *r.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 20, 21, 99, 255]);
                let body = r.bytes(n);
                stream.extend((n as u32 + 1).to_be_bytes());
                stream.push(id);
                stream.extend(&body);
                want.push((body, id));
            }
        }
        ends.push(stream.len());
    }
    // What comes last is cut off, or the lengths make no sense, or nothing.
    let end = r.below(4);
    match end {
        0 => {
            stream.extend((50_000u32).to_be_bytes());
            stream.push(7);
            let n = r.below(3000);
            stream.extend(r.bytes(n));
        }
        1 => {
            stream.extend([0xff, 0xff, 0xff, *r.pick(&[0xff, 0x00, 0x13])]);
            let n = r.below(3000);
            stream.extend(r.bytes(n));
        }
        _ => (),
    }
    let mut cuts: Vec<usize> = vec![];
    match r.below(5) {
        0 => (),
        1 => cuts = (1..stream.len().min(200)).collect(),
        2 => cuts.extend(ends.iter().flat_map(|e| [e.saturating_sub(1), *e, e + 1, e + 3, e + 4, e + 5])),
        _ => {
            let n = r.range(1, 40);
            cuts.extend((0..n).map(|_| r.below(stream.len())));
        }
    }
    cuts.retain(|c| (1..stream.len()).contains(c));
    cuts.push(stream.len());
    cuts.sort();
    cuts.dedup();
    // One message takes seconds to arrive, never one without some of it.
    let mut slow: Vec<usize> = vec![];
    let slow_ms = r.range(60, 200) as u64;
    if r.one_in(60) {
        let at = r.below(ends.len());
        let from = if at == 0 { 0 } else { ends[at - 1] };
        slow = (1..=r.range(5, 30)).map(|i| if i < 8 { from + i } else { from + r.below(ends[at] - from) }).collect();
        slow.retain(|c| (from + 1..ends[at]).contains(c));
        cuts.extend(&slow);
    }
    cuts.sort();
    cuts.dedup();
    let pause: Vec<u64> = cuts
        .iter()
        .map(|c| match slow.contains(c) {
            true => slow_ms,
            false if r.one_in(30) => *r.pick(&[1, 20, 110, 250]),
            false => 0,
        })
        .collect();
    let io = |e: std::io::Error| Verdict::Inconclusive(e.to_string());
    let listener = match TcpListener::bind("127.0.0.1:0") {
        Ok(l) => l,
        Err(e) => return io(e),
    };
    let addr = listener.local_addr().unwrap();
    let (data, cuts2) = (stream.clone(), cuts.clone());
    let sender = std::thread::spawn(move || {
        let (mut s, _) = listener.accept()?;
        s.set_nodelay(true)?;
        let mut at = 0;
        for (c, p) in cuts2.iter().zip(pause) {
            // The other side may have seen enough.
            if s.write_all(&data[at..*c]).is_err() {
                break;
            }
            at = *c;
            std::thread::sleep(Duration::from_micros(if p == 0 { 30 } else { p * 1000 }));
        }
        if end == 2 {
            std::thread::sleep(Duration::from_millis(300));
        }
        Ok::<(), std::io::Error>(())
    });
    let tcp = match TcpStream::connect(addr) {
        Ok(t) => t,
        Err(e) => return io(e),
    };
    let mut s = StreamInterface::Tcp(tcp);
    let (mut got, mut nones, t0) = (vec![], 0, Instant::now());
    let mut finished = false;
    while t0.elapsed() < Duration::from_secs(if ctx.alone { 40 } else { 20 }) {
        match guarded(64 << 20, || read_stream(&mut s)) {
            Ok(Some((body, id, _))) => {
                got.push((body, id));
                nones = 0;
            }
            Ok(None) => {
                nones += 1;
                // A keep alive is no message; so is nothing.
                std::thread::sleep(Duration::from_millis(1));
                finished |= sender.is_finished();
                if finished && nones > ends.len() + 3 {
                    break;
                }
            }
            Err(p) => return Verdict::Violation(format!("reading {} in {} segments crashes: {p}", show(&stream), cuts.len())),
        }
    }
    drop(s);
    let _ = sender.join();
    let what = format!("{} bytes in {} segments: {}", stream.len(), cuts.len(), show(&stream));
    let same = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
    if same < got.len() {
        return Verdict::Violation(format!("{what}: message {same} is {} with {}", got[same].1, show(&got[same].0)));
    }
    if got.len() < want.len() {
        return Verdict::Suspect(format!("{what}: of {} messages {} were read", want.len(), got.len()));
    }
    Verdict::Ok(
        Obs::new(hash64(&stream) ^ cuts.len() as u64, cuts.len() > 1, what)
            .count("messages read from a connection", got.len())
            .count("segments", cuts.len()),
    )
}

fn main() {
    kit::runner::worker(&[("parse", parse), ("serialise", serialise), ("framing", framing)]);
}
